// Fact extractor: dumps, as JSON, the type-checked syntax tree of every function defined under --root.
// It is the front end of the static analyses in /verif/lib: nothing of the analysed program is executed.
#include "clang/AST/AST.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;
static std::string Root;
static int HadError=0;
namespace {
struct Dumper {
  ASTContext &C; const SourceManager &SM; std::map<const Decl*,int> ids; std::map<std::string,int> tys; Array tylist;
  Dumper(ASTContext &c):C(c),SM(c.getSourceManager()){}
  int id(const Decl*d){ d=d->getCanonicalDecl(); auto it=ids.find(d); if(it!=ids.end())return it->second; int n=ids.size()+1; ids[d]=n; return n;}
  std::string fix(StringRef s){ return llvm::json::isUTF8(s)?s.str():llvm::json::fixUTF8(s);}
  int ty(QualType q){ if(q.isNull()) return -1; std::string s=q.getCanonicalType().getAsString(C.getPrintingPolicy()); auto it=tys.find(s); if(it!=tys.end())return it->second; int n=tys.size(); tys[s]=n; tylist.push_back(fix(s)); return n;}
  int line(SourceLocation L){ return SM.getExpansionLineNumber(L);}
  std::string file(SourceLocation L){ auto F=SM.getFilename(SM.getExpansionLoc(L)); return F.str();}
  static int64_t I(const llvm::APSInt&v){ return v.isRepresentableByInt64()?v.getExtValue():(int64_t)v.getLimitedValue(); }
  Value E(const Expr*e){
    if(!e) return nullptr;
    while(true){
      if(auto p=dyn_cast<ParenExpr>(e)){e=p->getSubExpr();continue;}
      if(auto p=dyn_cast<ExprWithCleanups>(e)){e=p->getSubExpr();continue;}
      if(auto p=dyn_cast<MaterializeTemporaryExpr>(e)){e=p->getSubExpr();continue;}
      if(auto p=dyn_cast<CXXBindTemporaryExpr>(e)){e=p->getSubExpr();continue;}
      if(auto p=dyn_cast<ConstantExpr>(e)){e=p->getSubExpr();continue;}
      if(auto p=dyn_cast<CXXDefaultArgExpr>(e)){e=p->getExpr();continue;}
      if(auto p=dyn_cast<CXXDefaultInitExpr>(e)){e=p->getExpr();continue;}
      if(auto p=dyn_cast<SubstNonTypeTemplateParmExpr>(e)){e=p->getReplacement();continue;}
      if(auto p=dyn_cast<ImplicitCastExpr>(e)){
        auto ck=p->getCastKind();
        if(ck==CK_IntegralToFloating||ck==CK_FloatingToIntegral||ck==CK_IntegralCast) { break; }
        e=p->getSubExpr();continue;}
      if(auto p=dyn_cast<CXXConstructExpr>(e)){
        if(p->getNumArgs()==1 && p->getConstructor()->isCopyOrMoveConstructor()){e=p->getArg(0);continue;}
        break;}
      break;
    }
    Object o; o["l"]=line(e->getExprLoc()); o["t"]=ty(e->getType());
    auto cvput=[&](){ if(!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType()){ Expr::EvalResult r; if(e->EvaluateAsInt(r,C) && r.Val.isInt()){ o["cv"]=I(r.Val.getInt()); } } };
    if(auto p=dyn_cast<IntegerLiteral>(e)){o["k"]="int";o["v"]=(int64_t)p->getValue().getLimitedValue();return o;}
    if(auto p=dyn_cast<CharacterLiteral>(e)){o["k"]="int";o["v"]=(int64_t)p->getValue();o["chr"]=true;return o;}
    if(auto p=dyn_cast<CXXBoolLiteralExpr>(e)){o["k"]="int";o["v"]=(int64_t)p->getValue();o["bool"]=true;return o;}
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){o["k"]="int";o["v"]=0;o["null"]=true;return o;}
    if(auto p=dyn_cast<FloatingLiteral>(e)){o["k"]="flt";o["v"]=p->getValueAsApproximateDouble();return o;}
    if(auto p=dyn_cast<StringLiteral>(e)){o["k"]="str";o["v"]=p->getCharByteWidth()==1?fix(p->getString()):std::string("<wide>");return o;}
    if(isa<PredefinedExpr>(e)){o["k"]="str";o["v"]="__func__";return o;}
    if(auto p=dyn_cast<DeclRefExpr>(e)){
      o["k"]="ref";auto d=p->getDecl();o["n"]=d->getNameAsString();o["id"]=id(d);
      if(auto ec=dyn_cast<EnumConstantDecl>(d)){o["dk"]="enum";o["v"]=I(ec->getInitVal());}
      else if(auto f=dyn_cast<FunctionDecl>(d)){o["dk"]="func";o["qn"]=f->getQualifiedNameAsString();}
      else if(isa<ParmVarDecl>(d))o["dk"]="parm";
      else if(auto v=dyn_cast<VarDecl>(d)){
        if(v->isStaticDataMember()) o["dk"]="smem"; else if(v->hasGlobalStorage()) o["dk"]=v->isStaticLocal()?"slocal":(v->getStorageClass()==SC_Static?"sglobal":"global"); else o["dk"]="var"; if(v->hasGlobalStorage())o["qn"]=v->getQualifiedNameAsString();}
      else o["dk"]="other";
      return o;}
    if(auto p=dyn_cast<MemberExpr>(e)){
      if(isa<VarDecl>(p->getMemberDecl())){o["k"]="ref";o["n"]=p->getMemberDecl()->getNameAsString();o["id"]=id(p->getMemberDecl());o["dk"]="smem";o["qn"]=p->getMemberDecl()->getQualifiedNameAsString();return o;}
      if(auto m=dyn_cast<CXXMethodDecl>(p->getMemberDecl())){o["k"]="ref";o["n"]=m->getNameAsString();o["id"]=id(m);o["dk"]="func";o["qn"]=m->getQualifiedNameAsString();return o;}
      o["k"]="mem";o["b"]=E(p->getBase());o["n"]=p->getMemberDecl()->getNameAsString();o["ar"]=p->isArrow();
      if(auto fd=dyn_cast<FieldDecl>(p->getMemberDecl())) o["rec"]=recname(fd->getParent());
      return o;}
    if(auto p=dyn_cast<ArraySubscriptExpr>(e)){o["k"]="idx";o["b"]=E(p->getBase());o["i"]=E(p->getIdx());return o;}
    if(auto p=dyn_cast<UnaryOperator>(e)){
      std::string s=UnaryOperator::getOpcodeStr(p->getOpcode()).str(); if(p->getOpcode()==UO_PostInc)s="p++"; else if(p->getOpcode()==UO_PostDec)s="p--"; 
      if(p->getOpcode()==UO_Extension) return E(p->getSubExpr());
      o["k"]="un";o["op"]=s;o["e"]=E(p->getSubExpr());cvput();return o;}
    if(auto p=dyn_cast<BinaryOperator>(e)){o["k"]=p->isAssignmentOp()?"asg":"bin";o["op"]=p->getOpcodeStr().str();o["a"]=E(p->getLHS());o["b"]=E(p->getRHS());if(!p->isAssignmentOp()&&p->getOpcode()!=BO_Comma)cvput();return o;}
    if(auto p=dyn_cast<ConditionalOperator>(e)){o["k"]="cond";o["c"]=E(p->getCond());o["a"]=E(p->getTrueExpr());o["b"]=E(p->getFalseExpr());cvput();return o;}
    if(auto p=dyn_cast<CXXMemberCallExpr>(e)){
      o["k"]="mcall"; if(auto m=p->getMethodDecl()){o["fn"]=m->getQualifiedNameAsString();o["n"]=m->getNameAsString();o["const"]=m->isConst();o["virt"]=m->isVirtual();o["id"]=id(m);o["na"]=(int)m->getNumParams();}
      o["obj"]=E(p->getImplicitObjectArgument()); if(auto me=dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens())) o["ar"]=me->isArrow();
      Array a; for(auto x:p->arguments())a.push_back(E(x)); o["args"]=std::move(a); return o;}
    if(auto p=dyn_cast<CXXOperatorCallExpr>(e)){
      o["k"]="op";o["op"]=getOperatorSpelling(p->getOperator());if(auto f=p->getDirectCallee()){o["fn"]=f->getQualifiedNameAsString();o["id"]=id(f);}
      Array a; for(auto x:p->arguments())a.push_back(E(x)); o["args"]=std::move(a); return o;}
    if(auto p=dyn_cast<CallExpr>(e)){
      o["k"]="call"; if(auto f=p->getDirectCallee()){o["fn"]=f->getQualifiedNameAsString();o["id"]=id(f);if(f->isNoReturn())o["nr"]=true; if(f->getBuiltinID()) o["bi"]=true;}
      else o["f"]=E(p->getCallee());
      Array a; for(auto x:p->arguments())a.push_back(E(x)); o["args"]=std::move(a); cvput(); return o;}
    if(auto p=dyn_cast<CXXConstructExpr>(e)){o["k"]="ctor";o["ty"]=ty(e->getType());o["fn"]=p->getConstructor()->getQualifiedNameAsString();o["id"]=id(p->getConstructor());Array a; for(auto x:p->arguments())a.push_back(E(x)); o["args"]=std::move(a);return o;}
    if(auto p=dyn_cast<CXXNewExpr>(e)){o["k"]="new";o["ty"]=ty(p->getAllocatedType());o["arr"]=p->isArray();if(p->isArray()&&p->getArraySize())o["n"]=E(*p->getArraySize());if(p->getInitializer())o["e"]=E(p->getInitializer());return o;}
    if(auto p=dyn_cast<CXXDeleteExpr>(e)){o["k"]="del";o["e"]=E(p->getArgument());o["arr"]=p->isArrayForm();return o;}
    if(isa<CXXThisExpr>(e)){o["k"]="this";return o;}
    if(auto p=dyn_cast<CXXThrowExpr>(e)){o["k"]="throw";if(p->getSubExpr())o["e"]=E(p->getSubExpr());return o;}
    if(auto p=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){o["k"]="sizeof";cvput();o["ty"]=ty(p->getTypeOfArgument());return o;}
    if(auto p=dyn_cast<InitListExpr>(e)){o["k"]="init";Array a; for(auto x:p->inits())a.push_back(E(x)); o["els"]=std::move(a);return o;}
    if(isa<ImplicitValueInitExpr>(e)||isa<CXXScalarValueInitExpr>(e)){o["k"]="int";o["v"]=0;o["zi"]=true;return o;}
    if(auto p=dyn_cast<CastExpr>(e)){
      o["k"]="cast";o["ck"]=p->getCastKindName();o["e"]=E(p->getSubExpr());o["ex"]=!isa<ImplicitCastExpr>(p);cvput();return o;}
    if(auto p=dyn_cast<LambdaExpr>(e)){o["k"]="lambda";o["body"]=S(p->getBody());return o;}
    if(auto p=dyn_cast<StmtExpr>(e)){o["k"]="stmtexpr";o["body"]=S(p->getSubStmt());return o;}
    o["k"]="other";o["cls"]=e->getStmtClassName();Array a;for(auto x:e->children())if(auto xe=dyn_cast_or_null<Expr>(x))a.push_back(E(xe));o["kids"]=std::move(a);cvput();return o;
  }
  std::string recname(const RecordDecl*r){ if(auto td=r->getTypedefNameForAnonDecl()) return td->getNameAsString(); return r->getQualifiedNameAsString();}
  Value V(const VarDecl*v){ Object o;o["n"]=v->getNameAsString();o["id"]=id(v);o["t"]=ty(v->getType());o["l"]=line(v->getLocation()); if(v->isStaticLocal())o["static"]=true; if(v->hasInit())o["init"]=E(v->getInit()); return o;}
  Value S(const Stmt*s){
    if(!s) return nullptr;
    Object o; o["l"]=line(s->getBeginLoc());
    if(auto e=dyn_cast<Expr>(s)){o["s"]="expr";o["e"]=E(e);return o;}
    if(auto p=dyn_cast<CompoundStmt>(s)){o["s"]="block";Array a;for(auto x:p->body())a.push_back(S(x));o["b"]=std::move(a);o["el"]=line(p->getRBracLoc());return o;}
    if(auto p=dyn_cast<IfStmt>(s)){o["s"]="if";if(p->getInit())o["init"]=S(p->getInit());if(p->getConditionVariable())o["cv"]=V(p->getConditionVariable());o["c"]=E(p->getCond());o["a"]=S(p->getThen());o["b"]=S(p->getElse());return o;}
    if(auto p=dyn_cast<WhileStmt>(s)){o["s"]="while";o["c"]=E(p->getCond());o["b"]=S(p->getBody());return o;}
    if(auto p=dyn_cast<DoStmt>(s)){o["s"]="do";o["c"]=E(p->getCond());o["b"]=S(p->getBody());return o;}
    if(auto p=dyn_cast<ForStmt>(s)){o["s"]="for";o["i"]=S(p->getInit());o["c"]=E(p->getCond());o["n"]=E(p->getInc());o["b"]=S(p->getBody());return o;}
    if(auto p=dyn_cast<CXXForRangeStmt>(s)){o["s"]="rfor";o["v"]=V(p->getLoopVariable());o["r"]=E(p->getRangeInit());o["b"]=S(p->getBody());return o;}
    if(auto p=dyn_cast<SwitchStmt>(s)){o["s"]="switch";o["c"]=E(p->getCond());o["b"]=S(p->getBody());return o;}
    if(auto p=dyn_cast<CaseStmt>(s)){o["s"]="case";o["v"]=E(p->getLHS());Expr::EvalResult r;if(!p->getLHS()->isValueDependent()&&p->getLHS()->EvaluateAsInt(r,C))o["cv"]=I(r.Val.getInt());o["b"]=S(p->getSubStmt());return o;}
    if(auto p=dyn_cast<DefaultStmt>(s)){o["s"]="default";o["b"]=S(p->getSubStmt());return o;}
    if(auto p=dyn_cast<ReturnStmt>(s)){o["s"]="ret";o["e"]=E(p->getRetValue());return o;}
    if(isa<BreakStmt>(s)){o["s"]="break";return o;}
    if(isa<ContinueStmt>(s)){o["s"]="cont";return o;}
    if(auto p=dyn_cast<GotoStmt>(s)){o["s"]="goto";o["n"]=p->getLabel()->getNameAsString();return o;}
    if(auto p=dyn_cast<LabelStmt>(s)){o["s"]="label";o["n"]=p->getDecl()->getNameAsString();o["b"]=S(p->getSubStmt());return o;}
    if(auto p=dyn_cast<DeclStmt>(s)){o["s"]="decl";Array a;for(auto d:p->decls())if(auto v=dyn_cast<VarDecl>(d))a.push_back(V(v));o["d"]=std::move(a);return o;}
    if(isa<NullStmt>(s)){o["s"]="null";return o;}
    if(auto p=dyn_cast<CXXTryStmt>(s)){o["s"]="try";o["b"]=S(p->getTryBlock());Array a;for(unsigned i=0;i<p->getNumHandlers();i++)a.push_back(S(p->getHandler(i)->getHandlerBlock()));o["h"]=std::move(a);return o;}
    o["s"]="other";o["cls"]=s->getStmtClassName();return o;
  }
};
struct Vis: RecursiveASTVisitor<Vis>{
  Dumper &D; Array fns, recs, globs; std::set<const Decl*> seen;
  Vis(Dumper&d):D(d){}
  bool inRoot(SourceLocation L){ std::string f=D.file(L); return f.rfind(Root,0)==0; }
  bool shouldVisitTemplateInstantiations() const {return false;}
  bool VisitFunctionDecl(FunctionDecl*f){
    if(!f->doesThisDeclarationHaveABody()||f->isDependentContext()||f->isImplicit()||f->isDefaulted()) return true;
    if(!inRoot(f->getLocation())) return true;
    if(auto m=dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return true;
    Object o;o["n"]=f->getNameAsString();o["qn"]=f->getQualifiedNameAsString();o["id"]=D.id(f);o["file"]=D.file(f->getLocation());o["l"]=D.line(f->getLocation());o["el"]=D.line(f->getEndLoc());o["static"]=f->getStorageClass()==SC_Static;o["rt"]=D.ty(f->getReturnType());
    Array ps;for(auto p:f->parameters()){Object q;q["n"]=p->getNameAsString();q["id"]=D.id(p);q["t"]=D.ty(p->getType());ps.push_back(std::move(q));}o["params"]=std::move(ps);
    if(auto m=dyn_cast<CXXMethodDecl>(f)){o["cls"]=m->getParent()->getQualifiedNameAsString();o["const"]=m->isConst();o["virt"]=m->isVirtual(); Array ov; for(auto b:m->overridden_methods()) ov.push_back(b->getQualifiedNameAsString()); o["over"]=std::move(ov);}
    if(auto c=dyn_cast<CXXConstructorDecl>(f)){o["ctor"]=true;Array ii;for(auto i:c->inits()){if(!i->isWritten())continue;Object q;if(i->isAnyMemberInitializer())q["n"]=i->getAnyMember()->getNameAsString();else if(i->isBaseInitializer())q["base"]=D.ty(QualType(i->getBaseClass(),0));q["e"]=D.E(i->getInit());ii.push_back(std::move(q));}o["inits"]=std::move(ii);}
    if(isa<CXXDestructorDecl>(f))o["dtor"]=true;
    o["body"]=D.S(f->getBody()); fns.push_back(std::move(o)); return true;}
  bool VisitRecordDecl(RecordDecl*r){
    if(!r->isCompleteDefinition()||r->isDependentContext()||!inRoot(r->getLocation())) return true;
    if(auto c=dyn_cast<CXXRecordDecl>(r)) if(c->isLambda()) return true;
    Object o;o["n"]=D.recname(r);o["tag"]=r->getNameAsString();o["file"]=D.file(r->getLocation());o["l"]=D.line(r->getLocation());Array fs;for(auto f:r->fields()){Object q;q["n"]=f->getNameAsString();q["t"]=D.ty(f->getType());fs.push_back(std::move(q));}o["fields"]=std::move(fs);
    if(auto c=dyn_cast<CXXRecordDecl>(r)){Array bs;for(auto&b:c->bases())if(auto bd=b.getType()->getAsCXXRecordDecl())bs.push_back(bd->getQualifiedNameAsString());o["bases"]=std::move(bs);}
    recs.push_back(std::move(o));return true;}
  bool VisitVarDecl(VarDecl*v){
    if(!v->hasGlobalStorage()||v->isStaticLocal()||isa<ParmVarDecl>(v)||v->getDeclContext()->isDependentContext()||!inRoot(v->getLocation())) return true;
    Object o; o["n"]=v->getNameAsString();o["qn"]=v->getQualifiedNameAsString();o["id"]=D.id(v);o["t"]=D.ty(v->getType());o["file"]=D.file(v->getLocation());o["l"]=D.line(v->getLocation());o["static"]=v->getStorageClass()==SC_Static;o["def"]=v->isThisDeclarationADefinition()!=VarDecl::DeclarationOnly;
    if(v->hasInit()&&!v->getInit()->isValueDependent())o["init"]=D.E(v->getInit()); globs.push_back(std::move(o)); return true;}
};
struct Cons: ASTConsumer{ CompilerInstance&CI; std::string in; Cons(CompilerInstance&c,StringRef f):CI(c),in(f){}
  void HandleTranslationUnit(ASTContext&C) override{
    if(C.getDiagnostics().hasUncompilableErrorOccurred()){HadError=1;}
    Dumper D(C);Vis v(D);v.TraverseDecl(C.getTranslationUnitDecl());
    Object o;o["tu"]=in;o["err"]=C.getDiagnostics().hasUncompilableErrorOccurred();o["fns"]=std::move(v.fns);o["recs"]=std::move(v.recs);o["globs"]=std::move(v.globs);o["types"]=std::move(D.tylist);
    llvm::outs()<<Value(std::move(o))<<"\n";
  }};
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,StringRef f)override{return std::make_unique<Cons>(CI,f);} };
}
// usage: extract ROOT file... -- flags
int main(int argc,const char**argv){
  if(argc<4) return 3;
  Root=argv[1]; std::vector<std::string> files, flags; int i=2; for(;i<argc&&std::string(argv[i])!="--";i++)files.push_back(argv[i]); for(i++;i<argc;i++)flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".",flags);
  tooling::ClangTool T(DB,files);
  int rc=T.run(tooling::newFrontendActionFactory<Act>().get());
  return (rc||HadError)?1:0;
}
