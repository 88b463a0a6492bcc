"""The properties: source of properties.jsonl and MANIFEST.json (gen.py)."""

NOTES = ("Every check extracts clang's typed syntax trees and control-flow "
         "graphs of /repo's current sources (engine/extract.cpp) and decides "
         "the property on them; nothing of /repo is executed.")

DF = "path-sensitive dataflow over the control-flow graph"
SOUND = ("Over-approximates the feasible paths (unknown library results are "
         "opaque, loops are folded to one generic element); trusts clang's "
         "front end, the models of the standard library and of the calls "
         "named in DESIGN.md, and is not a proof about compiled code.")

PROPS = []


def prop(id, title, statement, over, forall, why, files, mechanism, **kw):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             over=over, forall=" ".join(forall.split()),
             why=" ".join(why.split()), files=files, mechanism=mechanism)
    d.setdefault("technique", DF)
    d.setdefault("note", SOUND)
    d.update(kw)
    PROPS.append(d)


EV = ["lib/Event.cpp", "lib/Object.cpp", "lib/Composition.cpp",
      "lib/Context.cpp", "lib/Switch.cpp", "lib/Media.cpp",
      "lib/MediaSettings.cpp"]
HOOKS = [("transition function", "lib/Event.cpp Event::transition"),
         ("class hooks", "lib/{Context,Switch,Media,MediaSettings}.cpp "
                         "beforeTransition/afterTransition")]
OVERHIST = "every class of object, type of event, state and requested " \
           "transition, whatever the rest of the document is"
WHYHIST = "Tests drive a few documents through a few transitions; what a " \
          "transition does depends on the state every other object is in."

prop("E01", "Event state machine",
     """An event moves between the sleeping, occurring and paused states only
     as the NCL event state machine allows: start from sleeping or paused,
     pause from occurring, resume from paused, stop and abort from occurring
     or paused. A request that the machine does not allow is refused and
     changes nothing, a request that is refused leaves the state as it was,
     and a request that succeeds leads to the state the machine names. The
     state of a new event is sleeping.""",
     ["histories", "inputs"], OVERHIST, WHYHIST, EV, HOOKS)

DOCF = ["lib/Document.cpp", "lib/Event.cpp", "lib/Context.cpp"]
ACT = [("actions", "lib/Document.cpp Document::evalAction, "
        "evalActionInContext")]

prop("E02", "Only performed actions have effects",
     """Evaluating an action asks its event for its transition exactly once,
     after giving the event the duration and, for attributions, the value of
     the action. If the transition is refused, nothing follows: no link is
     triggered, nothing is scheduled, and the action is not counted. Each
     transition performed counts as one in the number returned.""",
     ["inputs", "histories"], "every type of event and transition, refused or "
     "performed, whatever the links of the document are", WHYHIST, DOCF, ACT)

prop("E03", "Stopped objects are reset",
     """When the presentation of an object is stopped or aborted, the object
     returns to its initial state: its clock is undefined, all its events
     sleep, no scheduled action of it survives, and a switch has no selected
     component.""",
     ["histories"], "every stop or abort of every class of object, from every "
     "active state", WHYHIST, EV, HOOKS + [("reset", "lib/Object.cpp "
                                            "Object::doStop")])

prop("E04", "A context lives exactly as long as something runs in it",
     """A context counts each of its children once while the child is active
     (occurring or paused), however it became active or inactive. At each
     tick it is asked to stop exactly when none of its children is active;
     the body also when only the settings object is.""",
     ["histories"], "every transition of every child, in every order, and "
     "every number of active children", WHYHIST, EV,
     [("counter", "lib/Context.cpp _awakeChildren, lib/Object.cpp doStart, "
       "doStop"), ("tick", "lib/Context.cpp Context::sendTick")])

prop("E05", "Transitions of compositions reach their components",
     """When a context is paused, resumed, stopped or aborted, the
     presentation of each of its children is asked to do the same; when a
     switch is, its selected component is.""",
     ["histories", "programs"], "every composition, whatever its children and "
     "their states", WHYHIST, EV, HOOKS)

prop("E06", "A switch selects the first component whose rule holds",
     """Starting a switch evaluates its rules in document order and starts
     and selects the component of the first one that holds; a port of the
     switch considers only the components that it maps. If there is none the
     start is refused without effect. The selection lasts until the switch is
     stopped or aborted, over pauses as well.""",
     ["programs", "histories", "inputs"], "every list of rules, every outcome "
     "of their predicates, every state of the switch", WHYHIST,
     ["lib/Switch.cpp", "lib/Event.cpp"],
     [("selection", "lib/Switch.cpp Switch::beforeTransition")])

prop("E07", "The player of a media follows its presentation",
     """A media has a player exactly while its presentation is active:
     starting it creates the player, gives it every property and starts it;
     pausing and resuming pause and resume it; stopping or aborting stops it
     and destroys it, once. Transitions of other events of the media do none
     of these.""",
     ["histories", "fault_sequences"], "every transition of every event of a "
     "media, in every state, including failing player creation", WHYHIST,
     ["lib/Media.cpp", "lib/MediaSettings.cpp"],
     [("player life", "lib/Media.cpp beforeTransition, doStop")])

prop("E08", "Anchors of a media begin and end with its time line",
     """Starting a media schedules each of its time anchors to start at its
     begin and to stop at its end, relative to the start, and no other event.
     Starting and stopping (or aborting) a labelled anchor tells the player so,
     once, with the label. Pausing and resuming the media pauses and resumes
     its anchors.""",
     ["programs", "histories"], "every set of anchors, every transition", 
     WHYHIST, ["lib/Media.cpp", "lib/Object.cpp"],
     [("schedule", "lib/Media.cpp afterTransition")])

prop("E09", "Scheduled actions fire once, on time and in order",
     """An action scheduled on an object fires exactly once, at the first tick
     at which the object's clock reaches its time, never earlier, with the
     event, transition, value and duration it was scheduled with. Actions due
     at the same tick fire in the order they were scheduled. The clock of an
     object, and of the player of a media, advances by the tick while the
     object is occurring, and only then.""",
     ["schedules", "histories"], "every list of scheduled actions, every due "
     "time before, at or after the new time, every state of the object",
     WHYHIST, ["lib/Object.cpp"],
     [("tick", "lib/Object.cpp Object::sendTick, lib/Media.cpp "
       "Media::sendTick"),
      ("schedule", "lib/Object.cpp Object::addDelayedAction")])

prop("E10", "Attributions assign once and end after their duration",
     """Starting an attribution sets the property it names to its value, with
     property references resolved, exactly once, and schedules its own end
     after its duration. The player of an active media gets the same
     assignment, as an animation from the old value when the duration is not
     zero. The end of an attribution changes no property.""",
     ["inputs", "histories"], "every value and duration, every class of "
     "object, active or not", WHYHIST,
     ["lib/Context.cpp", "lib/Media.cpp", "lib/MediaSettings.cpp"], HOOKS)

prop("E11", "No transition aborts the process",
     """Whatever transition is requested of whatever event, in whatever
     state, the request is performed or refused; it never ends in a failed
     assertion, a fatal error or the use of a null pointer.""",
     ["histories", "programs"], OVERHIST, WHYHIST, EV, HOOKS,
     note=SOUND + " Assumes well-formed time strings in parameters and that "
     "players do not abort.")

prop("E12", "A media ends when its player or its duration does",
     """A running media is asked to stop at the first tick at which its player
     reports the end of its content or the media's clock exceeds its explicit
     duration, and at no other tick.""",
     ["schedules", "inputs"], "every answer of the player, every explicit "
     "duration (undefined, elapsed, not elapsed), every state", WHYHIST,
     ["lib/Media.cpp", "lib/MediaSettings.cpp"],
     [("tick", "lib/Media.cpp Media::sendTick")])

prop("E13", "Starting a context starts its ports",
     """When a context is started, each of its ports to a presentation is
     scheduled on it to start at once. When a context sleeps and one of its
     media or contexts is started, the context is started too, but its ports
     are not; the next start of the context starts its ports again.""",
     ["programs", "histories"], "every list of ports, every state of the "
     "context and of its parent", WHYHIST, ["lib/Context.cpp",
                                            "lib/Media.cpp"],
     [("ports", "lib/Context.cpp Context::afterTransition"),
      ("mark", "parameter fromport in lib/Media.cpp beforeTransition, "
       "lib/Context.cpp afterTransition")])

prop("L01", "A link fires when, and only when, one of its conditions does",
     """A link is triggered by a transition exactly when one of its conditions
     names that event and that transition and the predicate of the condition,
     if it has one, holds. Every condition of every link of the context is
     considered, and none while the links of the context are switched off. A
     triggered link performs each of its actions exactly once: an action
     without delay at once and unchanged, an action with a delay by scheduling
     its event, transition, value and duration on the context of the link
     after that delay, property references in the delay being resolved.""",
     ["programs", "inputs"], "every list of links, conditions, predicates and "
     "actions, every outcome of the predicates, every delay", WHYHIST, DOCF,
     ACT)

prop("L02", "Links are evaluated where the event is visible, once",
     """A transition that succeeds is seen, exactly once each, by the links of
     the context the object is in, if it is occurring; by those of the context
     around it, if that is occurring and a port of the inner one maps the
     object; by those of the object itself if it is a context; by those of
     every context that refers to the object; and by no others. For a
     component of a switch the transition is repeated on the label of every
     port of the switch that maps the component. The actions that a link
     triggers without delay are all performed, in the order of the link.""",
     ["programs", "histories"], "every class of object in every kind of place "
     "of a document, every state of the surrounding contexts", WHYHIST, DOCF,
     ACT)

prop("L03", "Predicates mean what they say",
     """A comparison holds exactly when its two operands, with references to
     properties replaced by the current values of the properties, compare as
     its comparator says; a negation exactly when its operand does not, a
     conjunction when all and a disjunction when some of its operands do. A
     reference is '$', the id or alias of an object, '.' and the name of a
     property; what is not one, or names no object, stands for itself.""",
     ["inputs", "programs"], "every predicate, every order of the operands, "
     "references that resolve or do not", "Tests compare a few constants.",
     ["lib/Document.cpp"], [("predicates", "lib/Document.cpp evalPredicate, "
                             "evalPropertyRef")])

BUILD = ["inputs", "programs"]

prop("D01", "Ids and aliases are unique in a document",
     """An object enters a document only if it is not in it and its id is
     neither the id nor an alias of an object of the document; a refused
     addition changes nothing. An object that has entered refers to the
     document, is among its objects, among those of its class (media, contexts
     or switches) and no other, is among the remote media exactly if it is
     played remotely, and is found by its id. A look-up by id or alias gives
     the object with that id, else one with that alias, else none.""",
     BUILD, "every document, every order of additions", "Tests add a few "
     "objects.", ["lib/Document.cpp", "lib/Object.cpp"],
     [("ids", "lib/Document.cpp addObject, getObjectByIdOrAlias")])

prop("D02", "A document releases everything it owns, once",
     """Destroying a document destroys its root; destroying a context or switch
     destroys each of its children, the predicates of its conditions and
     actions or of its rules; destroying an object destroys its events, a
     predicate its operands, which it shares with no other predicate, even when
     one is a copy of the other; a media its player: each exactly once. A context
     is stopped before its children go. The formatter destroys its document
     when it is stopped or destroyed and keeps no reference to it. Objects are
     destroyed through classes with virtual destructors.""",
     BUILD, "every document that can be built", "Leaks and double releases "
     "show only under a memory checker, and only on the paths a test takes.",
     ["lib/Context.cpp", "lib/Switch.cpp", "lib/Object.cpp",
      "lib/Predicate.cpp", "lib/Document.cpp", "lib/Media.cpp",
      "lib/Formatter.cpp"], [("ownership", "destructors")])

prop("D03", "An object has one event per type and id",
     """Adding an event of a type and id that the object has changes nothing;
     otherwise the object gains exactly one event, sleeping, of that type and
     id, with the given interval or label, belonging to the object. A look-up
     gives the event of exactly that type and id (or, for presentation events,
     label) whenever there is one, and otherwise none.""",
     BUILD, "every set of events, every id", "Tests use a few ids.",
     ["lib/Object.cpp", "lib/Event.cpp"],
     [("events", "lib/Object.cpp getEvent, add*Event")])

prop("D04", "Documents are put together as declared",
     """A child is in its composition once, has it as its parent and is in its
     document. Ports, links and rules are kept in the order of their addition
     with their parts in their places, a port once. A switch port stands for
     the events last given to it, and has a label event. Setting a property
     changes that property only, and reading it gives the value last set, or
     the empty string. The operands of a predicate are kept in order and have
     it as their parent; a copy of a predicate has its type, its test and
     copies of its operands, and shares nothing with it.""",
     BUILD, "every sequence of additions", "Tests build a few documents.",
     ["lib/Composition.cpp", "lib/Context.cpp", "lib/Switch.cpp",
      "lib/Object.cpp", "lib/Predicate.cpp"], [("structure", "addChild, addPort, addLink, addRule, "
                           "addSwitchPort, setProperty")])

INTER = ["inputs", "histories", "programs"]

prop("I01", "A key reaches exactly what waits for it",
     """A key that comes while a media is sleeping, or has no player, does
     nothing to it. Otherwise its player gets the key exactly if it has the
     focus; the press of a cursor key while it has the focus, with a moveUp,
     moveDown, moveLeft or moveRight property for that key, schedules exactly
     that move of the focus and nothing else moves it; and each of its
     selection events that expects this key, or that expects no key (or a
     parameter that could not be resolved) when the key is ENTER and the media
     has the focus, is started by a press and stopped by a release, once; no
     other event is.""",
     INTER, "every state of the media, every key, every set of events",
     "Tests send a few keys to a few documents.", ["lib/Media.cpp"],
     [("keys", "lib/Media.cpp sendKey")])

prop("I03", "The focus moves when and where it is told to",
     """A move of the focus that was scheduled is made at the next tick of the
     settings, by one assignment of service.currentFocus, before the tick takes
     effect; the last one scheduled counts, and one that is scheduled while
     another is being made is made at the tick after. Without one the focus
     stays. A move to no particular index goes to the least focusIndex of the
     media that are occurring and have one, and to none if there is none. An
     object with a focusIndex schedules such a move when it starts. Setting
     service.currentFocus, and no other property, tells the players which index
     has the focus.""",
     INTER, "every history of moves, every set of media", "Tests move the "
     "focus a few times in a few documents.",
     ["lib/MediaSettings.cpp", "lib/Object.cpp"],
     [("focus", "lib/MediaSettings.cpp sendTick, updateCurrentFocus, "
       "scheduleFocusUpdate, setProperty; lib/Object.cpp doStart")])

prop("F01", "The formatter runs one document from its start to its end",
     """A stopped formatter starts exactly the documents that parse: it starts
     the root, once, and the settings, and is then playing; otherwise it stays
     stopped. A formatter that is playing is not started, a stopped one is not
     stopped; keys and ticks that come while it is stopped do nothing. A key or
     tick that comes when the root is sleeping, or the end has been signalled,
     stops the formatter and reaches no object. Any other key reaches each
     object that is not sleeping when it comes, any other tick each object that
     is occurring when it comes, once each, and no other object; in particular
     not those that start because of it. A document that was started anew does
     not inherit the end of the one before.""",
     INTER, "every history of calls, every document, every state of its "
     "objects", "Tests make a few calls in the usual order.",
     ["lib/Formatter.cpp"], [("gates", "lib/Formatter.cpp start, stop, "
                              "sendKey, sendTick")])

PARS = ["lib/Parser.cpp"]
DOCS = ["inputs", "programs"]

prop("P01", "Exactly the documents of the grammar are accepted",
     """An element is accepted iff the NCL grammar knows it, allows it under
     its parent, all the attributes the grammar requires are there, none that
     has to be non-empty is empty, those that are names are valid names,
     those that are unique ids were not taken before, it has no attribute
     and no child element the grammar does not give it; otherwise exactly one
     error is reported. An element without an id that may have none gets a
     generated one. Ids and references carry the prefix of the aliases being
     imported. Every element of a document is checked, pushed, cached and
     popped exactly once, its children in document order between its push
     and its pop, and processing stops at the first failure; a document
     whose root is not ncl, or that libxml2 cannot read, gives an error and
     no document. The syntax table is the grammar of NCL.""",
     DOCS, "every element, attribute, attribute value and nesting",
     "Tests parse a document or two per element.",
     PARS, [("grammar", "lib/Parser.cpp parser_syntax_table, checkNode, "
             "processNode, process; Parser::parseBuffer, parseFile")])

prop("P02", "What the parser notes is what it finds",
     """While a document is parsed: an element that is cached is found by its
     node, its id among the tags asked for, and its tag, all of them and in
     document order, and nothing else is found; the stacks of objects,
     screen rectangles and imports give what was pushed last and remove it
     exactly when popped; the prefix of ids is the aliases of the imports
     being made, outermost first; a file that is being imported is not
     imported again; an id is taken iff it was added, a generated id is
     neither taken nor given twice; the first media noted for an id stays;
     attributes and user data are what was set last, what user data replace
     or leave is cleaned up exactly once; children of an XML node are found
     in order by tag; each error leaves its code and text.""",
     DOCS, "every content of the caches, sets, stacks and maps, every key "
     "and tag list", "Tests reach them only through a few documents.",
     PARS, [("services", "lib/Parser.cpp ParserState eltCache*, objStack*, "
             "rectStack*, aliasStack*, referMap*, genId, errElt*; ParserElt; "
             "lib/aux-ginga.cpp UserData")])

prop("P03", "The parser fails exactly when it has found an error",
     """Every step of the parser, and every resolution of a reference, that
     fails has reported an error of the document; and none that has reported
     one succeeds. So a document with an error is refused, with a message, and
     a document is never refused without one.""",
     DOCS, "every document", "Tests parse some wrong documents, one for each "
     "message.", PARS, [("errors", "lib/Parser.cpp ParserState::push*, pop*, "
                         "resolve*, and what they call")])

prop("P04", "What the parser makes of the elements of a document",
     """For each element there is, in its composition, exactly what it
     declares: a media is a media of the type of its type attribute, with the
     absolute URI of its source, or what the media that it refers to is, of
     which it is then an alias; the settings object is one; a context, a switch
     and the body are made or reused likewise; an anchor is one presentation
     event with its times, or a label; a property is one attribution event
     and the value; ports, switch ports with their mappings, rules, and the
     default component of a switch are those declared, in the order of the
     document, with what their references resolve to. Each has its id, and
     nothing else is made. An element that cannot be is refused.""",
     DOCS, "every combination of attributes, contexts and references",
     "Tests parse some documents for each element.", PARS,
     [("elements", "lib/Parser.cpp pushNcl, pushBody, pushContext, pushMedia, "
       "pushSwitch, pushArea, pushProperty, pushPort, pushSwitchPort, "
       "pushMapping, pushBindRule, pushDefaultComponent, popContext, "
       "popSwitch")])

prop("P05", "No document makes the parser abort",
     """Whatever the document, no step of the parser fails one of its checks or
     dereferences a null pointer, and each step leaves the stack of the
     compositions that are being parsed as the surrounding elements expect it.
     """,
     DOCS, "every document", "Tests parse some wrong documents.", PARS,
     [("handlers", "lib/Parser.cpp ParserState::push*, pop*, resolve*, "
       "obtainPredicate, solvePredicate")])

prop("P06", "References are resolved where they are made",
     """A component is the composition in which it is looked up, if it is named
     by its id or an alias, or else its child of that id or alias, or the media
     that was declared with a refer to that name. An interface is the
     component's lambda, if none is named; of a media, its anchor, or else its
     property, of that name; of a switch, its switch port; of a context seen
     from outside, what its port of that name maps to, or else its property; of
     the composition itself, its property. A component or interface that is not
     there is an error. Nothing is resolved in another
     composition.""",
     DOCS, "every reference in every context", "Tests resolve some references "
     "of some elements.", PARS,
     [("references", "lib/Parser.cpp resolveComponent, resolveInterface")])

prop("P07", "Links join what their binds name",
     """A document with a link gets it, in the context of the link, if its
     connector is there, each role and each test of the connector has a bind,
     and each bind names an interface of the right kind; otherwise it is
     refused. For each bind of a role of the connector, in order, the link
     has one condition or action, as the role says, with the role's
     transition, the event that the bind names (for a role about a selection,
     that of the object with the role's key; for lookAt, that of the
     object), the role's value, key, delay and duration after parameters
     are replaced, and for a condition the predicate of the connector, in
     which the tests refer to what their binds name. A parameter $x is the
     parameter x of the bind, or else of the link, or else empty; one that
     is itself a reference is what the bind of that name refers to. Names
     of binds that are neither roles nor tests can be referred to so.""",
     DOCS, "every connector and link: any roles of any type of event, with "
     "any predicates, any binds and parameters, in any order",
     "Tests parse a few links.",
     PARS, [("links", "lib/Parser.cpp popNcl, pushLink, pushBind, "
             "pushLinkParam, resolveParameter")])

prop("P08", "Media get the properties of their descriptors",
     """The region of each region element is what its attributes call for in
     its parent's, relative to the screen (if they do not give both of two
     opposite sides), and lies above those before it. A descriptor gets all
     attributes of its region but the id, its parameters, and for transIn and
     transOut the attributes of the transition, or their defaults. Each
     attribute of its descriptor, but the id, becomes a property of a media
     that does not define it; no other becomes one, and none is overridden. A
     reference to a region, transition, descriptor or media that is not there,
     or to a media that is itself a reference, is an error.""",
     DOCS, "every set of regions, descriptors, transitions and media, with "
     "every combination of their attributes", "Tests parse some descriptors.",
     PARS, [("layout", "lib/Parser.cpp pushRegion, popRegion, "
             "pushDescriptorParam, popNcl")])

prop("P09", "Connectors, statements and rules mean what their words say",
     """A connector's role is recorded with its type of event, transition,
     key, value, delay and duration: those its attributes name, or the ones
     the NCL standard has for the role; a role reserved for a condition or an
     action is refused as the other, as is one whose attributes contradict
     it or are not enough. The predicate of a role's condition holds iff all
     the assessments of the compound conditions around it do. Each
     assessment and rule is the comparison, negation, conjunction or
     disjunction that its words stand for, of the operands it contains, in
     order; unknown words and operands for which there is no room are
     refused. In the predicate of a link, a role is replaced by what it is
     bound to, wherever it is, and nothing else changes.""",
     DOCS, "every role, standard or not, with every combination of event "
     "types, transitions and other attributes; every word of assessments, "
     "statements and rules; every nesting of compound conditions, statements "
     "and rules", "Tests parse a few connectors and rules.",
     PARS, [("connectors", "lib/Parser.cpp pushSimpleCondition, "
             "pushCompoundCondition, pushCompoundStatement, "
             "pushAssessmentStatement, pushAttributeAssessment, pushRule, "
             "obtainPredicate, solvePredicate")])

prop("Y01", "Setting a property of a player does what the property means",
     """Setting a property of a player that it knows, by its name or an alias
     of it, changes what the property stands for, in every class of player,
     and nothing else: left, top, width, height, right and bottom (pixels or
     percentages of the screen, never negative, right and bottom relative to
     the size of the player, and set anew when that size changes), bounds,
     location and size as the properties they consist of, stacking order,
     transparency, background, visibility, duration, focus index and border,
     debug, uri, type; of texts and signal generators also their own. The
     empty string stands for the default. A value outside the words a
     property has is refused. The value is remembered as it was given; unknown
     properties are only remembered. A reset gives all of them their default
     and remembers none. The player yields what was set: order, duration,
     whether it has the focus.""",
     DOCS, "every property, alias and unknown name, every value (by the "
     "classes of values the utilities tell apart), every class of player",
     "Tests of players set a few properties, most with no effect observed.",
     ["lib/Player.cpp", "lib/PlayerText.cpp", "lib/PlayerSigGen.cpp"],
     [("players", "lib/Player.cpp setProperty, doSetProperty, "
       "getPlayerProperty, resetProperties")])

prop("F02", "The screen shows each media once, from back to front",
     """Each redraw of a formatter that is playing paints the whole screen
     black and then, if there is one, with the background color, and then
     draws each media of the document exactly once, those with a smaller
     index, or the same index and a smaller order, first. A media draws by
     its player, and has its player's index and order, exactly when it is not
     sleeping and has one. A stopped formatter draws nothing. A resize records
     the new size and, when playing, then places each media anew: each of its
     properties top, left, width, height, bottom and right that it has is set
     again to what it is, and nothing else is set.""",
     DOCS, "every document, every index and order of two media, every state "
     "of a media, every set of the six properties, every background",
     "Tests draw nothing that is looked at.",
     ["lib/Formatter.cpp", "lib/Media.cpp"],
     [("redraw", "lib/Formatter.cpp redraw, zcmp, resize; lib/Media.cpp "
       "redraw, getZ")])

prop("Y02", "A text means the same number, time, truth value or list everywhere",
     """A number in a text is what its leading number says; followed by a
     percent sign it is a hundredth of that, and such a text is said to be a
     percentage. A size is that number, or that share of the base, rounded to
     the nearest integer (halves away from zero) and brought into the range
     asked for; a level is such a size of base 255 between 0 and 255. An
     integer in a text is what its leading digits say in the base asked for,
     brought into the range of its type, and the absence of any is never
     taken for a number. A time is a number of seconds that is not negative,
     with or without an s behind it, or hours:minutes:seconds, and a text in
     which anything but space follows that is no time; a truth value is true
     or false in any case of letters, and no other text is one. What is no
     time or truth value is refused, whether or not the caller wants the
     value, and so is a list whose number of items is not in the range asked
     for; those of others come in order, without the space around them.
     (How a time that lacks a number is taken is left open.)""",
     DOCS, "every text of the shapes: number, number and percent sign, number "
     "and unit, digits, seconds, hours:minutes:seconds, word, with any "
     "numbers in place, every base and range; every number of items",
     "Tests try a handful of texts, most of them whole numbers.",
     ["lib/aux-ginga.cpp"],
     [("texts", "lib/aux-ginga.cpp parse_percent, parse_pixel, parse_time, "
       "parse_bool, try_parse_list, xstrtod, xstrtodorpercent, xstrispercent, xstrto*")])

prop("N01", "A presentation keeps to its clock",
     """Between the wall clock and the time that objects of a running
     presentation are told there is never more than the length of one tick.""",
     INTER, "every machine, every document", "Tests advance time by hand.",
     ["lib/Formatter.cpp", "src/ginga.cpp"],
     [("ticks", "src/ginga.cpp, src/ginga-gui.cpp main loop")],
     na="how late a tick comes and how long it takes is not in the source: it "
     "depends on the machine, GTK's main loop and the document. That a tick "
     "advances what runs by exactly its length is decided (E09, E12, F01).")

prop("N02", "Content is shown as it was authored",
     """The pixels and samples that a player puts out are those of the content
     that its uri names.""",
     INTER, "every content", "Tests compare nothing that was rendered.",
     ["lib/PlayerVideo.cpp", "lib/PlayerImage.cpp", "lib/PlayerSvg.cpp"],
     [("players", "lib/Player*.cpp")],
     na="decoding and rendering happen in GStreamer, cairo, pango, librsvg and "
     "CEF, whose sources are not here; which player gets which property is "
     "decided (Y01, E07), and in which order they are drawn (F02).")

prop("N03", "A presentation uses bounded memory and time per tick",
     """The memory of a presentation and the time of a tick are bounded by the
     size of its document.""",
     INTER, "every document and history", "Tests run a few ticks.",
     ["lib/Document.cpp", "lib/Object.cpp"],
     [("actions", "lib/Document.cpp evalAction")],
     na="links may trigger each other for ever in a valid document (a link "
     "that restarts what ended), so the bound depends on run-time values of "
     "properties and on the author's cycle of links; no static bound exists.")
