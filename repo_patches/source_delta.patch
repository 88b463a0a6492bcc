From 1dee8a6f33a92494b2010db3835a330770b9f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 01/28] fix: count an object started while paused only once as
 awake

---
 lib/Object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 85d36e6..7be28d1 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -412,9 +412,11 @@ Object::getTime ()
 void
 Object::doStart ()
 {
-  _time = 0;
-  if (_parent != nullptr && instanceof (Context *, _parent))
+  // An object started while paused is already counted as awake.
+  if (!GINGA_TIME_IS_VALID (_time) && _parent != nullptr
+      && instanceof (Context *, _parent))
     cast (Context *, _parent)->incAwakeChildren ();
+  _time = 0;
 
   // schedule set currentFocus if the object have focusIndex
   if (!this->getProperty ("focusIndex").empty ())
-- 
2.43.0


From 319313060337711af9b4b3109b54fac33e2ac2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 02/28] fix: do not abort when the body's only awake child is
 not the settings object

---
 lib/Context.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index c79e503..13ef16a 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -150,16 +150,11 @@ Context::sendTick (Time total, Time diff, Time frame)
   Object::sendTick (total, diff, frame);
 
   // Check for EOS.
-  if (_parent == nullptr && _awakeChildren == 1)
+  if (_parent == nullptr && _awakeChildren == 1
+      && _doc->getSettings ()->isOccurring ())
     {
-      if (_doc->getSettings ()->isOccurring ())
-        {
-          _doc->evalAction (_lambda, Event::STOP);
-        }
-      else
-        {
-          g_assert_not_reached ();
-        }
+      // Only the settings object is awake.
+      _doc->evalAction (_lambda, Event::STOP);
     }
   else if (_awakeChildren == 0)
     {
-- 
2.43.0


From 56f4c9bc39def1fdee64830daece0b9e58b9f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 03/28] fix: refuse transitions that an object does not support
 instead of aborting

---
 lib/Context.cpp |  9 ++++++---
 lib/Media.cpp   | 11 ++++-------
 lib/Switch.cpp  |  7 ++++++-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 13ef16a..7814779 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -168,7 +168,8 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
   switch (evt->getType ())
     {
     case Event::PRESENTATION:
-      g_assert (evt->isLambda ());
+      if (unlikely (!evt->isLambda ()))
+        return false; // fail
       switch (transition)
         {
         case Event::START:
@@ -216,9 +217,11 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
       break;
 
     case Event::ATTRIBUTION:
-      break; // nothing to do
+      // Attributions can only be started or stopped.
+      return transition == Event::START || transition == Event::STOP;
 
-    case Event::SELECTION:
+    case Event::SELECTION: // fall through
+    case Event::LOOKAT:
       return false; // fail
 
     default:
diff --git a/lib/Media.cpp b/lib/Media.cpp
index fd444c2..92cb385 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -300,14 +300,11 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
         }
       break;
 
-    case Event::ATTRIBUTION:
-      break; // nothing to do
-
-    case Event::SELECTION:
-      break; // nothing to do
-
+    case Event::ATTRIBUTION: // fall through
+    case Event::SELECTION:   // fall through
     case Event::LOOKAT:
-      break; // nothing to do
+      // These can only be started or stopped.
+      return transition == Event::START || transition == Event::STOP;
 
     default:
       g_assert_not_reached ();
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1533299..b70ba28 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -68,6 +68,10 @@ bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
   set<Event *> switchPort_evts; // The possible selected events.
+
+  if (evt->getType () != Event::PRESENTATION)
+    return false; // fail
+
   if (evt->isLambda ())
     {
       // If we are acting on the switch's @lambda all the @lambda children
@@ -80,7 +84,8 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       // If we are action on a switchPort we should select only the events
       // being mapped by the switchPort (and the defaultComponent?).
       auto it = _switchPorts.find (evt->getId ());
-      g_assert (it != _switchPorts.end ());
+      if (unlikely (it == _switchPorts.end ()))
+        return false; // fail
       for (Event *e : it->second)
         switchPort_evts.insert (e);
     }
-- 
2.43.0


From 1cfe4c48b57b51f98960cd9e474cab4d64cdaf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 04/28] fix: keep the selection of a switch while it is paused

---
 lib/Switch.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index b70ba28..df4f889 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -99,7 +99,10 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          g_assert_null (_selected);
+          // Already selected: either paused or started by another port.
+          if (_selected != nullptr)
+            return evt->getState () == Event::PAUSED
+                   && _selected->getLambda ()->transition (transition);
           for (auto item : _rules)
             {
               Object *obj;
@@ -150,7 +153,8 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               Event *lambda = _selected->getLambda ();
               g_assert_nonnull (lambda);
               lambda->transition (transition);
-              _selected = nullptr;
+              if (transition == Event::STOP || transition == Event::ABORT)
+                _selected = nullptr;
             }
           break;
 
-- 
2.43.0


From 9b1169fb75b64915c5549cb13176de755c6e12fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 05/28] fix: stop an anchor of a paused media without aborting

---
 lib/Media.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 92cb385..f2bcb86 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -380,7 +380,6 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           else // non-lambda area
             {
               Time end;
-              g_assert (this->isOccurring ());
               evt->getInterval (nullptr, &end);
               if (transition == Event::ABORT)
                 TRACE ("abort %s (end=%" GINGA_TIME_FORMAT
-- 
2.43.0


From c988df50561d62edd255e59ec8a9a1ebd6041da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 06/28] fix: trigger the links of the grandparent context only
 once

---
 lib/Document.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index e366275..4b66b83 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -368,6 +368,7 @@ Document::evalAction (Action init)
                       list<Action> ret
                           = evalActionInContext (act, ctx_grandparent);
                       stack.insert (stack.end (), ret.begin (), ret.end ());
+                      break; // trigger only once
                     }
                 }
             }
-- 
2.43.0


From c27ac81cdc21ffb1d3ba33ae68734fd457434e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 07/28] fix: evaluate negated predicates instead of aborting

---
 lib/Document.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 4b66b83..357e66f 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -502,7 +502,18 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
-      g_assert_not_reached ();
+      {
+        for (auto child : *pred->getChildren ())
+          {
+            if (this->evalPredicate (child))
+              {
+                TRACE ("not -> false");
+                return false;
+              }
+          }
+        TRACE ("not -> true");
+        return true;
+      }
       break;
     case Predicate::CONJUNCTION:
       {
-- 
2.43.0


From f312893b1f666178fb3cad04c822705fb04e8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 08/28] fix: start the ports of a context that was started by a
 child before

---
 lib/Context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 7814779..211bc35 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -252,6 +252,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
 
           // Start all ports in the next tick if not started from port
           evt->getParameter ("fromport", &param_test);
+          evt->setParameter ("fromport", "");
           if (param_test != "")
             break;
           for (auto port : _ports)
@@ -259,7 +260,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
               if (port->getType () == Event::PRESENTATION)
                 this->addDelayedAction (port, Event::START, "", 0);
             }
-          evt->setParameter ("fromport", "");
+
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
-- 
2.43.0


From 6706899a6f1cee92bda24350e13df263f302bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 09/28] fix: delete the children of a switch

---
 lib/Switch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index df4f889..5cca185 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -31,6 +31,11 @@ Switch::Switch (const string &id) : Composition (id)
 
 Switch::~Switch ()
 {
+  // Delete children.
+  for (auto child : _children)
+    delete child;
+
+  // Delete rules.
   for (auto item : _rules)
     delete item.second;
 }
-- 
2.43.0


From 189b9141d4e554383081ee1aa0d45bae3cd4b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 10/28] fix: keep the duration of actions that are delayed

---
 lib/Document.cpp | 3 ++-
 lib/Object.cpp   | 5 ++++-
 lib/Object.h     | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 357e66f..dfa786a 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -293,7 +293,8 @@ Document::evalActionInContext (Action act, Context *ctx)
                   g_assert_nonnull (next_obj);
 
                   ctx->addDelayedAction (next_evt, next_act.transition,
-                                         next_act.value, delay);
+                                         next_act.value, delay,
+                                         next_act.duration);
                 }
             }
         }
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 7be28d1..58fb04c 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -351,13 +351,16 @@ Object::getDelayedActions ()
 
 void
 Object::addDelayedAction (Event *event, Event::Transition transition,
-                          const string &value, Time delay)
+                          const string &value, Time delay,
+                          const string &duration)
 {
   Action act;
 
   act.event = event;
   act.transition = transition;
+  act.predicate = nullptr;
   act.value = value;
+  act.duration = duration;
   _delayed.push_back (std::make_pair (act, _time + delay));
 }
 
diff --git a/lib/Object.h b/lib/Object.h
index fba94f9..a2736dd 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -70,8 +70,8 @@ public:
 
   const list<pair<Action, Time> > *getDelayedActions ();
   void addDelayedAction (Event *, Event::Transition,
-                         const string &value = "", Time delay = 0);
-
+                         const string &value = "", Time delay = 0,
+                         const string &duration = "");
   virtual void sendKey (const string &, bool);
   virtual void sendTick (Time, Time, Time);
 
-- 
2.43.0


From d4dbb19e189b45c0155aa71639d2a6b518477bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 11/28] fix: do not overflow the time of actions scheduled on a
 stopped object

---
 lib/Object.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 58fb04c..5f133b2 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -361,7 +361,9 @@ Object::addDelayedAction (Event *event, Event::Transition transition,
   act.predicate = nullptr;
   act.value = value;
   act.duration = duration;
-  _delayed.push_back (std::make_pair (act, _time + delay));
+  if (GINGA_TIME_IS_VALID (_time) && GINGA_TIME_IS_VALID (delay))
+    delay += _time;
+  _delayed.push_back (std::make_pair (act, delay));
 }
 
 void
-- 
2.43.0


From ab73c1fd67a8075726b90a525b13724582d3da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 12/28] fix: stop the clock of the player of a media that is
 paused

---
 lib/Media.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index f2bcb86..bcbb6e4 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -141,6 +141,9 @@ Media::sendTick (Time total, Time diff, Time frame)
 {
   Time dur;
 
+  if (unlikely (!this->isOccurring ()))
+    return; // nothing to do
+
   // Update object time.
   Object::sendTick (total, diff, frame);
 
-- 
2.43.0


From cef7017216a39834cc76930f6caa1543ea18b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 13/28] fix: keep the due actions of an object that is paused
 by one of them

---
 lib/Object.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 5f133b2..faf5da4 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -390,11 +390,17 @@ Object::sendTick (unused (Time total), Time diff, unused (Time frame))
         }
     }
 
-  for (auto action : trigger)
+  while (!trigger.empty ())
     {
+      Action action = trigger.front ();
+      trigger.pop_front ();
       _doc->evalAction (action);
-      if (!this->isOccurring ())
-        return;
+      if (this->isOccurring ())
+        continue;
+      if (this->isPaused ()) // the others are due when it is resumed
+        for (auto it = trigger.rbegin (); it != trigger.rend (); ++it)
+          _delayed.push_front (std::make_pair (*it, _time));
+      return;
     }
 
   for (auto it = _delayed.begin (); it != _delayed.end ();)
-- 
2.43.0


From 88a4b72e5d28ea4e052d90d3feda1c3fa0f7980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 14/28] fix: focus update scheduled while one is being applied
 was lost

---
 lib/MediaSettings.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index c820fd9..8668522 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -58,8 +58,9 @@ MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
   if (_hasNextFocus) // effectuate pending focus index update
     {
-      this->updateCurrentFocus (_nextFocus);
-      _hasNextFocus = false;
+      string next = _nextFocus;
+      _hasNextFocus = false; // the update may schedule another one
+      this->updateCurrentFocus (next);
     }
   Media::sendTick (total, diff, frame);
 }
-- 
2.43.0


From 041c43e9d4f5080c6c237ecc9b2cf4139b6d6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 15/28] fix: fonts that cannot be located or loaded are an
 error, not an abort

---
 lib/Parser.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab8d927..707dbba 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4219,9 +4219,16 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   if (st->getURI () != "")
     {
       xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
-      src = toCPPString (s);
-      xmlFree (s);
-      src = xpathfromuri (src.c_str ());
+      gchar *path = (s != nullptr)
+                        ? g_filename_from_uri ((const gchar *) s, nullptr,
+                                               nullptr)
+                        : nullptr;
+      if (s != nullptr)
+        xmlFree (s);
+      if (unlikely (path == nullptr))
+        return st->errEltBadAttribute (elt->getNode (), "src", src);
+      src = string (path);
+      g_free (path);
     }
   else
     src = xpathmakeabs (src);
@@ -4263,7 +4270,11 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       //      FcPatternPrint (new_font);
     }
 
-  return (fontAddStatus == FcTrue);
+  if (unlikely (fontAddStatus != FcTrue))
+    return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                   "cannot load font");
+
+  return true;
 }
 
 // External API.
-- 
2.43.0


From b7f1533079acb8c9b0170da29589a0f01365cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 16/28] fix: media sources that are not URI references are an
 error, not a crash

---
 lib/Parser.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 707dbba..45830e1 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3953,15 +3953,6 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
                 delete tmpMedia;
             }
 
-          gchar *scheme = g_uri_parse_scheme (src.c_str ());
-          if (g_strcmp0 (scheme, "streambuf") == 0)
-            {
-              string filename = src.substr (12);
-              src = string ("file:/tmp/") + filename + ".mp4";
-            }
-          g_free (scheme);
-          // xmlFree (s);
-
           // add this Media as refer to MediaSettings
           parent = cast (Composition *, st->objStackPeek ());
           g_assert_nonnull (parent);
@@ -3977,6 +3968,8 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
               // Makes uri based in the main document uri
               xmlChar *s = xmlBuildURI (toXmlChar (src),
                                         toXmlChar (st->getURI ()));
+              if (unlikely (s == nullptr))
+                return st->errEltBadAttribute (elt->getNode (), "src", src);
               src = toCPPString (s);
               if (!xpathisuri (src))
                 {
-- 
2.43.0


From 3b08c8405ff91daa0766f4212eb80dea9d7acd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 17/28] fix: generated ids skip those already used in the
 document

---
 lib/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 45830e1..713ce7f 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1091,8 +1091,10 @@ ParserElt::setData (const string &key, void *value, UserDataCleanFunc fn)
 string
 ParserState::genId ()
 {
-  string id = xstrbuild ("__unamed-%d__", _genid++);
-  g_assert_false (isInUniqueSet (id));
+  string id;
+  do
+    id = xstrbuild ("__unamed-%d__", _genid++);
+  while (this->isInUniqueSet (id));
   return id;
 }
 
-- 
2.43.0


From 002027ce7dae88b309bace0caa3dfac21480947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 18/28] fix: ids of the built-in objects cannot be reused

---
 lib/Parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 713ce7f..9a85cd0 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3581,6 +3581,9 @@ ParserState::pushContext (ParserState *st, ParserElt *elt)
       g_assert_nonnull (parent);
 
       g_assert (elt->getAttribute ("id", &id));
+      if (unlikely (st->_doc->getObjectById (id) != nullptr))
+        return st->errEltBadAttribute (elt->getNode (), "id", id,
+                                       "must be unique");
       ctx = new Context (id);
       parent->addChild (ctx);
     }
@@ -3681,6 +3684,9 @@ ParserState::pushSwitch (ParserState *st, ParserElt *elt)
   g_assert_nonnull (parent);
 
   g_assert (elt->getAttribute ("id", &id));
+  if (unlikely (st->_doc->getObjectById (id) != nullptr))
+    return st->errEltBadAttribute (elt->getNode (), "id", id,
+                                   "must be unique");
   swtch = new Switch (id);
   parent->addChild (swtch);
 
@@ -3979,6 +3985,9 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
                 }
               xmlFree (s);
             }
+          if (unlikely (st->_doc->getObjectById (id) != nullptr))
+            return st->errEltBadAttribute (elt->getNode (), "id", id,
+                                           "must be unique");
           // create Media if not found refer that created the referred Media
           if (!st->referMapIndex (id, &media))
             {
-- 
2.43.0


From 07c573e504cb453e1f0f6f7db3bf74cfb88eaa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 19/28] fix: unresolved media references are reported before
 their descriptor is used

---
 lib/Parser.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 9a85cd0..ea1e2e9 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2443,6 +2443,26 @@ borderColor='%s'}",
           string desc_id;
           string refer;
 
+          // Check refer.
+          if (media_elt->getAttribute ("refer", &refer))
+            {
+              ParserElt *refer_elt;
+
+              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
+                                                    { "media" })))
+                {
+                  return st->errEltBadAttribute (media_elt->getNode (),
+                                                 "refer", refer,
+                                                 "no such media object");
+                }
+              if (refer_elt->getAttribute ("refer", nullptr))
+                {
+                  return st->errEltBadAttribute (
+                      media_elt->getNode (), "refer", refer,
+                      "cannot refer to a reference");
+                }
+            }
+
           // Move descriptor attributes.
           if (media_elt->getAttribute ("descriptor", &desc_id))
             {
@@ -2471,26 +2491,6 @@ borderColor='%s'}",
                   media->setProperty (it.first, it.second);
                 }
             }
-
-          // Check refer.
-          if (media_elt->getAttribute ("refer", &refer))
-            {
-              ParserElt *refer_elt;
-
-              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
-                                                    { "media" })))
-                {
-                  return st->errEltBadAttribute (media_elt->getNode (),
-                                                 "refer", refer,
-                                                 "no such media object");
-                }
-              if (refer_elt->getAttribute ("refer", nullptr))
-                {
-                  return st->errEltBadAttribute (
-                      media_elt->getNode (), "refer", refer,
-                      "cannot refer to a reference");
-                }
-            }
         }
     }
 
-- 
2.43.0


From 37091cb414a5dfe7021e8ef5b7ef623100f42d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 20/28] fix: transition attributes in descriptors keep their
 own values

---
 lib/Parser.cpp | 57 ++++++++++++++------------------------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ea1e2e9..290b4de 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2384,48 +2384,23 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "no such transition");
                 }
 
+              // Attributes of the transition and their default values.
+              static const pair<string, string> attrs[]
+                  = { { "subtype", "" },      { "dur", "0" },
+                      { "startProgress", "0" }, { "endProgress", "0" },
+                      { "direction", "forward" }, { "fadeColor", "" },
+                      { "horzRepeat", "0" },  { "vertRepeat", "0" },
+                      { "borderWidth", "0" }, { "borderColor", "" } };
+
               g_assert (trans_elt->getAttribute ("type", &str));
-              val = "{type='" + str + "',";
-              val += xstrbuild (
-                  "\
-subtype='%s',\
-dur='%s',\
-startProgress='%s',\
-endProgress='%s',\
-direction='%s',\
-fadeColor='%s',\
-horzRepeat='%s',\
-vertRepeat='%s',\
-borderWidth='%s',\
-borderColor='%s'}",
-                  (trans_elt->getAttribute ("subtype", &str)) ? str.c_str ()
-                                                              : "",
-                  +(trans_elt->getAttribute ("dur", &str)) ? str.c_str ()
-                                                           : "0",
-                  +(trans_elt->getAttribute ("startProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("endProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("direction", &str))
-                      ? str.c_str ()
-                      : "forward",
-                  +(trans_elt->getAttribute ("fadeColor", &str))
-                      ? str.c_str ()
-                      : "",
-                  +(trans_elt->getAttribute ("horzRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("vertRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderWidth", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderColor", &str))
-                      ? str.c_str ()
-                      : "");
+              val = "{type='" + str + "'";
+              for (auto &attr : attrs)
+                {
+                  if (!trans_elt->getAttribute (attr.first, &str))
+                    str = attr.second;
+                  val += "," + attr.first + "='" + str + "'";
+                }
+              val += "}";
               desc_elt->setAttribute (trans_attr[i], val);
             }
         }
-- 
2.43.0


From d9c82d0235f86b6270857880ef27f096abc2ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 21/28] fix: transition references of imported descriptors

---
 lib/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 290b4de..05b7839 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -508,8 +508,8 @@ static map<string, ParserSyntaxElt> parser_syntax_table = {
             { "focusSrc", 0 },
             { "focusSelSrc", 0 },
             { "selBorderColor", 0 },
-            { "transIn", 0 },
-            { "transOut", 0 },
+            { "transIn", ATTR_OPT_IDREF },
+            { "transOut", ATTR_OPT_IDREF },
             // extra attributes
             { "left", 0 },
             { "right", 0 },
-- 
2.43.0


From 74ffb25aa24cba8dfccd4a5072547f6be3775950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 22/28] fix: string leaked for documents without id

---
 lib/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 05b7839..f852df5 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2306,15 +2306,15 @@ bool
 ParserState::pushNcl (ParserState *st, ParserElt *elt)
 {
   Context *root;
-  string *id = new string ();
+  string id;
 
   root = st->_doc->getRoot ();
   g_assert_nonnull (root);
 
-  if (elt->getAttribute ("id", id))
+  if (elt->getAttribute ("id", &id))
     {
-      root->addAlias (*id);
-      st->_doc->setData ("id", id, xstrdelete);
+      root->addAlias (id);
+      st->_doc->setData ("id", new string (id), xstrdelete);
     }
 
   st->objStackPush (root);
-- 
2.43.0


From 4d33495deb89eb5fbde4d6a516d3c17f77326b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 23/28] fix: forward references to the settings object

---
 lib/Parser.cpp | 58 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index f852df5..1e0f474 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3856,8 +3856,39 @@ ParserState::pushBindRule (ParserState *st, ParserElt *elt)
  *
  * @param st #ParserState.
  * @param elt Element wrapper.
+ * @fn ParserState::pushMedia
  * @return \c true if successful, or \c false otherwise.
  */
+
+/// Tests whether media type is that of the settings object.
+static bool
+isSettingsType (const string &type)
+{
+  return type == "application/x-ginga-settings"
+         || type == "application/x-ncl-settings";
+}
+
+/// Tests whether tree contains a settings object with the given id.
+static bool
+xmlHasSettings (xmlNode *node, const string &id)
+{
+  string str;
+
+  if (node->type != XML_ELEMENT_NODE)
+    return false;
+
+  if (toCPPString (node->name) == "media"
+      && xmlGetPropAsString (node, "id", &str) && str == id
+      && xmlGetPropAsString (node, "type", &str) && isSettingsType (str))
+    return true;
+
+  for (xmlNode *child = node->children; child; child = child->next)
+    if (xmlHasSettings (child, id))
+      return true;
+
+  return false;
+}
+
 bool
 ParserState::pushMedia (ParserState *st, ParserElt *elt)
 {
@@ -3896,8 +3927,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
             {
               // when Parser find the reffered Media
               // (a) if an Media, the Parser will set uri, type and parent
-              // (b) if an MediaSettings, the Parser will replace
-              media = new Media (refer);
+              // (b) if an MediaSettings, use the one of the document
+              if (xmlHasSettings (xmlDocGetRootElement (st->_xml), refer))
+                media = st->_doc->getSettings ();
+              else
+                media = new Media (refer);
             }
 
           st->referMapAdd (refer, media);
@@ -3913,29 +3947,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
   else
     {
       // case it is a MediaSettings
-      if (type == "application/x-ginga-settings" || type == "application/x-ncl-settings")
+      if (isSettingsType (type))
         {
-          Media *tmpMedia = nullptr;
-
           // there is only one MediaSettings
           media = st->_doc->getSettings ();
 
-          // if there are refers to this MediaSettings, those refers
-          // are using a tmp Media, which should be this MediaSettings
-          st->referMapIndex (id, &tmpMedia);
-          if (tmpMedia)
-            {
-              auto it = st->_referMap.begin ();
-              while ((*it).second == tmpMedia)
-                {
-                  st->_referMap[(*it).first] = media;
-                  media->addAlias ((*it).first);
-                  it++;
-                }
-              if (it != st->_referMap.begin ())
-                delete tmpMedia;
-            }
-
           // add this Media as refer to MediaSettings
           parent = cast (Composition *, st->objStackPeek ());
           g_assert_nonnull (parent);
-- 
2.43.0


From 38839522ee69dda1a181f48682f57af5a181b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:37 +0000
Subject: [PATCH 24/28] fix: context properties named as a port of another
 context can be referred to

---
 lib/Parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 1e0f474..63c62df 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1779,7 +1779,14 @@ ParserState::resolveInterface (Composition *ctx, ParserElt *elt,
             }
 
           if (ctx->getId () != obj->getId ())
-            goto fail;
+            {
+              // Port of another context.
+              result = obj->getAttributionEvent (iface);
+              if (likely (result != nullptr))
+                goto success; // interface point to context property
+              else
+                goto fail;
+            }
 
           return this->resolveInterface (ctx, iface_elt, evt);
         }
-- 
2.43.0


From 4953ca6c8d3946ea6f950b86ce0459afa85cd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 25/28] fix: right and bottom of nested regions are relative to
 the screen

---
 lib/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 63c62df..0b2d86e 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2889,6 +2889,10 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
   elt->setAttribute ("top", xstrbuild ("%g%%", top));
   elt->setAttribute ("width", xstrbuild ("%g%%", width));
   elt->setAttribute ("height", xstrbuild ("%g%%", height));
+  if (elt->getAttribute ("right", nullptr))
+    elt->setAttribute ("right", xstrbuild ("%g%%", 100. - left - width));
+  if (elt->getAttribute ("bottom", nullptr))
+    elt->setAttribute ("bottom", xstrbuild ("%g%%", 100. - top - height));
 
   return true;
 }
-- 
2.43.0


From b7abbc314dfd0a8dca378793869e0d095744d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 26/28] fix: bottom of a player is relative to the screen, as
 right is

---
 lib/Player.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 6280960..599ead4 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -722,8 +722,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       {
         int height = _formatter->getOptionInt ("height");
         _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, _prop.rect.height, 0,
-                                               G_MAXINT);
+                       - ginga::parse_percent (value, height, 0, G_MAXINT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From 3a1f1dcdc308a7a9425a7fb8c7c51165b8f5bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:57 +0000
Subject: [PATCH 27/28] fix: removing user data that is not there

UserData::setData (KEY, nullptr) for a key that has no data erased end(),
which is undefined (it crashes or corrupts the map).
---
 lib/aux-ginga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 263db7e..c1b6570 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -789,7 +789,8 @@ UserData::setData (const string &key, void *value, UserDataCleanFunc fn)
     it->second.second (it->second.first);
   if (value == nullptr)
     {
-      _udata.erase (it);
+      if (it != _udata.end ())
+        _udata.erase (it);
       return false;
     }
   else
-- 
2.43.0


From b929bdedddacf860a7d709845cd29f759f8b402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:10 +0000
Subject: [PATCH 28/28] fix: animate bounds, location and size towards the
 items of the list

The iterator over the target values started at the end of the list, so that
animating any of these properties read past it (and crashed).
---
 lib/PlayerAnimator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index e091e0d..285ffb8 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -61,7 +61,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 4, 4);
       list_pos = ginga::parse_list (to, ',', 4, 4);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
       this->doSchedule ("width", *pre++, *pos++, dur);
@@ -73,7 +73,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
     }
@@ -83,7 +83,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("width", *pre++, *pos++, dur);
       this->doSchedule ("height", *pre++, *pos++, dur);
     }
-- 
2.43.0

