// gfacts: dumps the resolved program of one translation unit as JSON:
// classes, enums, globals with their initialisers, and, per function with a
// body under the given root, its expression table and clang's own CFG.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root, Out;

struct Dumper : RecursiveASTVisitor<Dumper>
{
  ASTContext &C;
  SourceManager &SM;
  json::Array Funcs, Globals, Classes, Enums;
  std::map<const ValueDecl *, int> VarIds;
  std::set<const Decl *> Seen;
  PrintingPolicy PP;

  Dumper (ASTContext &C) : C (C), SM (C.getSourceManager ()), PP (C.getLangOpts ())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations () const { return true; }
  bool shouldVisitImplicitCode () const { return true; }
  bool shouldVisitLambdaBody () const { return true; }

  std::string fileOf (SourceLocation L)
  {
    auto P = SM.getPresumedLoc (SM.getExpansionLoc (L));
    return P.isValid () ? P.getFilename () : "";
  }
  unsigned lineOf (SourceLocation L)
  {
    auto P = SM.getPresumedLoc (SM.getExpansionLoc (L));
    return P.isValid () ? P.getLine () : 0;
  }
  bool mine (SourceLocation L)
  {
    if (L.isInvalid ())
      return false;
    std::string F = fileOf (L);
    return F.compare (0, Root.size (), Root) == 0;
  }
  std::string ty (QualType T)
  {
    if (T.isNull ())
      return "";
    return T.getCanonicalType ().getAsString (PP);
  }
  int varId (const ValueDecl *D)
  {
    D = cast<ValueDecl> (D->getCanonicalDecl ());
    auto it = VarIds.find (D);
    if (it != VarIds.end ())
      return it->second;
    int n = VarIds.size () + 1;
    VarIds[D] = n;
    return n;
  }
  std::string fkey (const FunctionDecl *F)
  {
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl> (F))
      if (M->getParent ()->isLambda ())
        {
          return "lambda@" + fileOf (M->getParent ()->getBeginLoc ()) + ":"
                 + std::to_string (lineOf (M->getParent ()->getBeginLoc ())) + ":"
                 + std::to_string (SM.getExpansionColumnNumber (M->getParent ()->getBeginLoc ()));
        }
    if (!F->isExternallyVisible () && !isa<CXXMethodDecl> (F) && mine (F->getLocation ()))
      {
        std::string f = fileOf (F->getLocation ());
        s = f.substr (Root.size ()) + "#";
      }
    s += qname (F);
    if (F->getTemplateSpecializationArgs ())
      {
        s += "<";
        bool first = true;
        for (auto &A : F->getTemplateSpecializationArgs ()->asArray ())
          {
            if (!first) s += ",";
            first = false;
            std::string t; llvm::raw_string_ostream os (t);
            A.print (PP, os, true);
            s += os.str ();
          }
        s += ">";
      }
    s += "(";
    for (unsigned i = 0; i < F->getNumParams (); i++)
      {
        if (i) s += ",";
        s += ty (F->getParamDecl (i)->getType ());
      }
    s += ")";
    return s;
  }
  std::string qname (const NamedDecl *D)
  {
    std::string s;
    llvm::raw_string_ostream os (s);
    D->printQualifiedName (os, PP);
    return os.str ();
  }
  std::string clsname (const CXXRecordDecl *R)
  {
    if (!R) return "";
    return ty (C.getRecordType (R));
  }

  // ---- expression table
  struct Table
  {
    std::map<const Stmt *, int> Ids;
    json::Array Nodes;
  };

  json::Value declRef (const ValueDecl *D)
  {
    json::Object o;
    if (auto *E = dyn_cast<EnumConstantDecl> (D))
      {
        o["dk"] = "enum";
        o["n"] = qname (E);
        o["v"] = E->getInitVal ().getExtValue ();
        o["et"] = ty (E->getType ());
      }
    else if (auto *F = dyn_cast<FunctionDecl> (D))
      {
        o["dk"] = "func";
        o["n"] = qname (F);
        o["key"] = fkey (F);
      }
    else if (auto *V = dyn_cast<VarDecl> (D))
      {
        if (isa<ParmVarDecl> (V))
          o["dk"] = "param";
        else if (V->isLocalVarDecl ())
          o["dk"] = V->isStaticLocal () ? "slocal" : "local";
        else
          o["dk"] = "global";
        o["n"] = (V->isLocalVarDecl () || isa<ParmVarDecl> (V)) ? V->getNameAsString () : gname (V);
        o["id"] = varId (V);
      }
    else
      {
        o["dk"] = "other";
        o["n"] = qname (D);
      }
    return o;
  }
  std::string gname (const VarDecl *V)
  {
    std::string s;
    if (!V->isExternallyVisible () && !V->isStaticDataMember () && mine (V->getLocation ()))
      s = fileOf (V->getLocation ()).substr (Root.size ()) + "#";
    return s + qname (V);
  }

  int add (const Stmt *S, Table &T)
  {
    if (!S)
      return -1;
    auto it = T.Ids.find (S);
    if (it != T.Ids.end ())
      return it->second;
    json::Object o;
    o["k"] = S->getStmtClassName ();
    o["l"] = lineOf (S->getBeginLoc ());
    std::string f = fileOf (S->getBeginLoc ());
    if (f != CurFile)
      o["f"] = f;
    if (S->getBeginLoc ().isMacroID ())
      {
        SourceLocation L = S->getBeginLoc ();
        StringRef M = Lexer::getImmediateMacroName (L, SM, C.getLangOpts ());
        // outermost macro
        std::string outer;
        while (L.isMacroID ())
          {
            outer = Lexer::getImmediateMacroName (L, SM, C.getLangOpts ()).str ();
            L = SM.getImmediateMacroCallerLoc (L);
          }
        (void) M;
        o["mac"] = outer;
      }
    if (auto *E = dyn_cast<Expr> (S))
      {
        o["t"] = ty (E->getType ());
        if (E->isGLValue ())
          o["lv"] = 1;
        if (!E->isValueDependent () && !E->isTypeDependent ()
            && (E->getType ()->isIntegralOrEnumerationType ()) && !E->isGLValue ())
          {
            Expr::EvalResult R;
            if (E->EvaluateAsInt (R, C, Expr::SE_NoSideEffects))
              {
                if (R.Val.getInt ().isUnsigned ()
                    && R.Val.getInt ().getActiveBits () > 63)
                  o["cv"] = (uint64_t) R.Val.getInt ().getZExtValue ();
                else
                  o["cv"] = R.Val.getInt ().getExtValue ();
              }
          }
      }
    json::Array ch;
    bool kids = true;
    if (auto *E = dyn_cast<IntegerLiteral> (S))
      o["v"] = (int64_t) E->getValue ().getZExtValue ();
    else if (auto *E = dyn_cast<CharacterLiteral> (S))
      o["v"] = (int64_t) E->getValue ();
    else if (auto *E = dyn_cast<FloatingLiteral> (S))
      o["v"] = E->getValueAsApproximateDouble ();
    else if (auto *E = dyn_cast<CXXBoolLiteralExpr> (S))
      o["v"] = E->getValue ();
    else if (auto *E = dyn_cast<StringLiteral> (S))
      {
        if (E->getCharByteWidth () == 1)
          o["v"] = json::fixUTF8 (E->getString ());
      }
    else if (auto *E = dyn_cast<PredefinedExpr> (S))
      {
        o["v"] = E->getFunctionName () ? json::fixUTF8 (E->getFunctionName ()->getString ()) : "";
        kids = false;
      }
    else if (auto *E = dyn_cast<DeclRefExpr> (S))
      o["d"] = declRef (E->getDecl ());
    else if (auto *E = dyn_cast<MemberExpr> (S))
      {
        if (auto *V = dyn_cast<VarDecl> (E->getMemberDecl ()))
          {
            json::Object d;
            d["dk"] = "global";
            d["n"] = gname (V);
            d["id"] = varId (V);
            o["d"] = std::move (d);
          }
        else if (auto *F = dyn_cast<FieldDecl> (E->getMemberDecl ()))
          {
            o["m"] = F->getNameAsString ();
            o["mq"] = qname (F);
            o["arrow"] = E->isArrow ();
          }
        else if (auto *M = dyn_cast<CXXMethodDecl> (E->getMemberDecl ()))
          {
            o["m"] = M->getNameAsString ();
            o["mq"] = qname (M);
            o["meth"] = fkey (M);
            o["arrow"] = E->isArrow ();
            if (E->hasQualifier ())
              o["qual"] = 1;
          }
        else if (auto *EC = dyn_cast<EnumConstantDecl> (E->getMemberDecl ()))
          o["d"] = declRef (EC);
      }
    else if (auto *E = dyn_cast<CXXConstructExpr> (S))
      {
        o["fn"] = fkey (E->getConstructor ());
        o["fq"] = qname (E->getConstructor ());
        o["cls"] = clsname (E->getConstructor ()->getParent ());
        o["copy"] = E->getConstructor ()->isCopyOrMoveConstructor ();
        o["list"] = E->isListInitialization ();
        o["triv"] = E->getConstructor ()->isTrivial ();
        o["zero"] = E->requiresZeroInitialization ();
      }
    else if (auto *E = dyn_cast<CallExpr> (S))
      {
        if (auto *F = E->getDirectCallee ())
          {
            o["fn"] = fkey (F);
            o["fq"] = qname (F);
            if (auto *M = dyn_cast<CXXMethodDecl> (F))
              {
                bool virt = M->isVirtual ();
                if (auto *ME = dyn_cast<MemberExpr> (E->getCallee ()->IgnoreParens ()))
                  if (ME->hasQualifier ())
                    virt = false;
                if (virt)
                  o["virt"] = 1;
                o["cls"] = clsname (M->getParent ());
                if (M->isStatic ())
                  o["static"] = 1;
                if (M->isConst ())
                  o["const"] = 1;
              }
            if (F->isNoReturn ())
              o["noret"] = 1;
            if (auto *II = F->getIdentifier ())
              o["fnm"] = II->getName ().str ();
            else
              o["fnm"] = F->getNameAsString ();
            if (F->getBuiltinID ())
              o["builtin"] = 1;
          }
        if (auto *O = dyn_cast<CXXOperatorCallExpr> (S))
          o["op"] = getOperatorSpelling (O->getOperator ());
        if (auto *O = dyn_cast<CXXMemberCallExpr> (S))
          if (auto *X = O->getImplicitObjectArgument ())
            {
              o["objt"] = ty (X->getType ());
            }
      }
    else if (auto *E = dyn_cast<BinaryOperator> (S))
      o["op"] = E->getOpcodeStr ().str ();
    else if (auto *E = dyn_cast<UnaryOperator> (S))
      {
        o["op"] = UnaryOperator::getOpcodeStr (E->getOpcode ()).str ();
        if (E->isPostfix ())
          o["post"] = 1;
      }
    else if (auto *E = dyn_cast<CastExpr> (S))
      {
        o["ck"] = E->getCastKindName ();
      }
    else if (auto *E = dyn_cast<CXXNewExpr> (S))
      {
        o["nt"] = ty (E->getAllocatedType ());
        if (E->isArray ())
          o["arr"] = 1;
      }
    else if (auto *E = dyn_cast<CXXDeleteExpr> (S))
      {
        o["dt"] = ty (E->getDestroyedType ());
        if (E->isArrayForm ())
          o["arr"] = 1;
      }
    else if (auto *E = dyn_cast<LambdaExpr> (S))
      {
        o["key"] = fkey (E->getCallOperator ());
        kids = false;
        for (const Expr *I : E->capture_inits ())
          ch.push_back (add (I, T));
        doFunc (E->getCallOperator ());
      }
    else if (auto *E = dyn_cast<CXXDefaultArgExpr> (S))
      {
        ch.push_back (add (E->getExpr (), T));
        kids = false;
      }
    else if (auto *E = dyn_cast<CXXDefaultInitExpr> (S))
      {
        ch.push_back (add (E->getExpr (), T));
        kids = false;
      }
    else if (auto *E = dyn_cast<InitListExpr> (S))
      {
        const InitListExpr *Sem = E->isSemanticForm () ? E : (E->getSemanticForm () ? E->getSemanticForm () : E);
        for (const Expr *I : Sem->inits ())
          ch.push_back (add (I, T));
        kids = false;
        if (auto *RT = E->getType ()->getAs<RecordType> ())
          {
            json::Array fs;
            for (auto *F : RT->getDecl ()->fields ())
              fs.push_back (F->getNameAsString ());
            o["fields"] = std::move (fs);
          }
      }
    else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr> (S))
      {
        o["op"] = E->getKind () == UETT_SizeOf ? "sizeof" : "other";
        if (E->isArgumentType ())
          o["at"] = ty (E->getArgumentType ());
        else
          o["at"] = ty (E->getArgumentExpr ()->getType ());
        kids = false;
      }
    else if (auto *E = dyn_cast<OffsetOfExpr> (S))
      {
        json::Array fs;
        for (unsigned i = 0; i < E->getNumComponents (); i++)
          if (E->getComponent (i).getKind () == OffsetOfNode::Field)
            fs.push_back (E->getComponent (i).getField ()->getNameAsString ());
        o["fields"] = std::move (fs);
        o["at"] = ty (E->getTypeSourceInfo ()->getType ());
        kids = false;
      }
    else if (auto *D = dyn_cast<DeclStmt> (S))
      {
        json::Array ds;
        for (auto *X : D->decls ())
          if (auto *V = dyn_cast<VarDecl> (X))
            {
              json::Object d;
              d["n"] = V->getNameAsString ();
              d["id"] = varId (V);
              d["t"] = ty (V->getType ());
              d["static"] = V->isStaticLocal ();
              d["ref"] = V->getType ()->isReferenceType ();
              d["style"] = (int) V->getInitStyle ();
              if (V->getInit ())
                {
                  d["init"] = add (V->getInit (), T);
                }
              ds.push_back (std::move (d));
            }
        o["decls"] = std::move (ds);
        kids = false;
      }
    else if (auto *L = dyn_cast<LabelStmt> (S))
      o["n"] = L->getName ();
    else if (auto *L = dyn_cast<GotoStmt> (S))
      o["n"] = L->getLabel ()->getNameAsString ();
    else if (auto *L = dyn_cast<OpaqueValueExpr> (S))
      {
        if (L->getSourceExpr ())
          ch.push_back (add (L->getSourceExpr (), T));
        kids = false;
      }
    if (kids)
      for (const Stmt *K : S->children ())
        if (K)
          ch.push_back (add (K, T));
    if (!ch.empty ())
      o["c"] = std::move (ch);
    int id = T.Nodes.size ();
    T.Ids[S] = id;
    T.Nodes.push_back (std::move (o));
    return id;
  }

  std::string CurFile;

  json::Value dumpCFG (const FunctionDecl *F, Table &T)
  {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd ();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = false;
    BO.AddTemporaryDtors = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXNewAllocator = false;
    std::unique_ptr<CFG> G = CFG::buildCFG (F, F->getBody (), &C, BO);
    json::Object o;
    if (!G)
      return nullptr;
    o["entry"] = G->getEntry ().getBlockID ();
    o["exit"] = G->getExit ().getBlockID ();
    json::Object bs;
    for (const CFGBlock *B : *G)
      {
        json::Object b;
        json::Array es;
        for (const CFGElement &E : *B)
          {
            if (auto SE = E.getAs<CFGStmt> ())
              es.push_back (add (SE->getStmt (), T));
            else if (auto IE = E.getAs<CFGInitializer> ())
              {
                const CXXCtorInitializer *I = IE->getInitializer ();
                json::Object io;
                if (I->isAnyMemberInitializer ())
                  {
                    io["field"] = I->getAnyMember ()->getNameAsString ();
                    io["fieldq"] = qname (I->getAnyMember ());
                    io["written"] = I->isWritten ();
                  }
                else if (I->isBaseInitializer ())
                  io["base"] = ty (QualType (I->getBaseClass (), 0));
                else
                  io["deleg"] = 1;
                io["expr"] = add (I->getInit (), T);
                es.push_back (std::move (io));
              }
          }
        b["e"] = std::move (es);
        if (const Stmt *TS = B->getTerminatorStmt ())
          {
            json::Object t;
            t["k"] = TS->getStmtClassName ();
            t["s"] = add (TS, T);
            if (const Stmt *CS = B->getTerminatorCondition (false))
              t["c"] = add (CS, T);
            if (auto *SS = dyn_cast<SwitchStmt> (TS))
              t["c"] = add (SS->getCond (), T);
            b["t"] = std::move (t);
          }
        if (const Stmt *L = B->getLabel ())
          {
            json::Object l;
            l["k"] = L->getStmtClassName ();
            if (auto *CS = dyn_cast<CaseStmt> (L))
              {
                Expr::EvalResult R;
                if (CS->getLHS ()->EvaluateAsInt (R, C))
                  l["v"] = R.Val.getInt ().getExtValue ();
                if (CS->getRHS () && CS->getRHS ()->EvaluateAsInt (R, C))
                  l["v2"] = R.Val.getInt ().getExtValue ();
              }
            b["lab"] = std::move (l);
          }
        if (B->hasNoReturnElement ())
          b["noret"] = 1;
        json::Array ss;
        for (auto &S : B->succs ())
          {
            if (const CFGBlock *R = S.getReachableBlock ())
              ss.push_back ((int) R->getBlockID ());
            else
              ss.push_back (nullptr);
          }
        b["s"] = std::move (ss);
        bs[std::to_string (B->getBlockID ())] = std::move (b);
      }
    o["b"] = std::move (bs);
    return o;
  }

  void doFunc (const FunctionDecl *F)
  {
    if (!F->doesThisDeclarationHaveABody () || F->isDependentContext ())
      return;
    if (F->isDefaulted () && F->isImplicit ())
      return;
    if (!mine (F->getLocation ()))
      return;
    if (!Seen.insert (F).second)
      return;
    std::string Save = CurFile;
    CurFile = fileOf (F->getLocation ());
    json::Object o;
    o["key"] = fkey (F);
    o["q"] = qname (F);
    o["n"] = F->getNameAsString ();
    o["file"] = CurFile;
    o["line"] = lineOf (F->getLocation ());
    o["endline"] = lineOf (F->getEndLoc ());
    o["ret"] = ty (F->getReturnType ());
    if (!F->isExternallyVisible ())
      o["internal"] = 1;
    if (F->isNoReturn ())
      o["noret"] = 1;
    json::Array ps;
    for (auto *P : F->parameters ())
      {
        json::Object p;
        p["n"] = P->getNameAsString ();
        p["id"] = varId (P);
        p["t"] = ty (P->getType ());
        ps.push_back (std::move (p));
      }
    o["params"] = std::move (ps);
    if (auto *M = dyn_cast<CXXMethodDecl> (F))
      {
        o["cls"] = clsname (M->getParent ());
        o["lambda"] = M->getParent ()->isLambda ();
        if (M->isVirtual ())
          o["virt"] = 1;
        if (M->isStatic ())
          o["static"] = 1;
        if (isa<CXXConstructorDecl> (M))
          o["ctor"] = 1;
        if (isa<CXXDestructorDecl> (M))
          o["dtor"] = 1;
        o["access"] = (int) M->getAccess ();
        json::Array ov;
        for (auto *X : M->overridden_methods ())
          ov.push_back (fkey (X));
        o["over"] = std::move (ov);
      }
    Table T;
    o["cfg"] = dumpCFG (F, T);
    o["body"] = add (F->getBody (), T);
    o["nodes"] = std::move (T.Nodes);
    Funcs.push_back (std::move (o));
    CurFile = Save;
  }

  bool VisitFunctionDecl (FunctionDecl *F)
  {
    doFunc (F);
    return true;
  }
  bool VisitVarDecl (VarDecl *V)
  {
    if (V->isLocalVarDecl () || isa<ParmVarDecl> (V) || !mine (V->getLocation ()))
      return true;
    if (V->getDeclContext ()->isDependentContext ())
      return true;
    json::Object o;
    CurFile = fileOf (V->getLocation ());
    o["n"] = gname (V);
    o["t"] = ty (V->getType ());
    o["file"] = CurFile;
    o["line"] = lineOf (V->getLocation ());
    o["def"] = V->isThisDeclarationADefinition () != VarDecl::DeclarationOnly;
    o["const"] = V->getType ().isConstQualified ();
    Table T;
    if (V->hasInit ())
      o["init"] = add (V->getInit (), T);
    o["nodes"] = std::move (T.Nodes);
    Globals.push_back (std::move (o));
    return true;
  }
  bool VisitCXXRecordDecl (CXXRecordDecl *R)
  {
    if (!R->isThisDeclarationADefinition () || !mine (R->getLocation ()) || R->isDependentContext () || R->isLambda ())
      return true;
    json::Object o;
    o["n"] = clsname (R);
    o["file"] = fileOf (R->getLocation ());
    o["line"] = lineOf (R->getLocation ());
    json::Array bs, fs, ms;
    for (auto &B : R->bases ())
      bs.push_back (ty (B.getType ()));
    for (auto *F : R->fields ())
      {
        json::Object f;
        f["n"] = F->getNameAsString ();
        f["t"] = ty (F->getType ());
        f["init"] = F->hasInClassInitializer ();
        f["line"] = lineOf (F->getLocation ());
        f["scalar"] = F->getType ()->isScalarType ();
        f["pod"] = F->getType ().isPODType (C);
        f["access"] = (int) F->getAccess ();
        fs.push_back (std::move (f));
      }
    for (auto *M : R->methods ())
      {
        json::Object m;
        m["n"] = M->getNameAsString ();
        m["key"] = fkey (M);
        m["virt"] = M->isVirtual ();
        m["pure"] = M->isPureVirtual ();
        m["access"] = (int) M->getAccess ();
        m["implicit"] = M->isImplicit ();
        m["ret"] = ty (M->getReturnType ());
        m["ctor"] = isa<CXXConstructorDecl> (M);
        m["dtor"] = isa<CXXDestructorDecl> (M);
        m["static"] = M->isStatic ();
        json::Array ov;
        for (auto *X : M->overridden_methods ())
          ov.push_back (fkey (X));
        m["over"] = std::move (ov);
        ms.push_back (std::move (m));
      }
    o["bases"] = std::move (bs);
    o["fields"] = std::move (fs);
    o["methods"] = std::move (ms);
    Classes.push_back (std::move (o));
    return true;
  }
  bool VisitEnumDecl (EnumDecl *E)
  {
    if (!mine (E->getLocation ()))
      return true;
    json::Object o;
    o["n"] = ty (C.getEnumType (E));
    json::Array cs;
    for (auto *K : E->enumerators ())
      {
        json::Object k;
        k["n"] = qname (K);
        k["v"] = K->getInitVal ().getExtValue ();
        cs.push_back (std::move (k));
      }
    o["c"] = std::move (cs);
    Enums.push_back (std::move (o));
    return true;
  }
};

struct Cons : ASTConsumer
{
  void HandleTranslationUnit (ASTContext &C) override
  {
    Dumper D (C);
    D.TraverseDecl (C.getTranslationUnitDecl ());
    json::Object o;
    o["errors"] = (int) C.getDiagnostics ().hasErrorOccurred ();
    o["functions"] = std::move (D.Funcs);
    o["globals"] = std::move (D.Globals);
    o["classes"] = std::move (D.Classes);
    o["enums"] = std::move (D.Enums);
    std::error_code EC;
    llvm::raw_fd_ostream OS (Out, EC);
    OS << json::Value (std::move (o));
  }
};
struct Act : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance &, StringRef) override
  {
    return std::make_unique<Cons> ();
  }
};

int
main (int argc, const char **argv)
{
  // gfacts ROOT OUT FILE -- flags
  if (argc < 5)
    return 2;
  Root = argv[1];
  Out = argv[2];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++)
    flags.push_back (argv[i]);
  tooling::FixedCompilationDatabase DB (".", flags);
  tooling::ClangTool Tool (DB, { argv[3] });
  return Tool.run (tooling::newFrontendActionFactory<Act> ().get ());
}
