// cxxdump: mechanical extraction of the typed AST of every function defined under
// given path prefixes in one translation unit, as compact JSON for the VC generator.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
#include <string>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Prefixes;
static std::string OutPath;

struct Dumper {
  ASTContext &C;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<std::string,int> typeIds; J::Array types;
  std::map<const Decl*,int> declIds;
  J::Object records, enums, functions, globals;
  std::set<const Decl*> doneRec, doneEnum, doneFn, doneGlob;
  std::vector<const FunctionDecl*> fnQueue;

  Dumper(ASTContext &c): C(c), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace = true;
    MC.reset(C.createMangleContext());
  }
  int did(const Decl *D){ D = D->getCanonicalDecl(); auto it=declIds.find(D); if(it!=declIds.end()) return it->second; int n=declIds.size()+1; declIds[D]=n; return n; }
  bool inScope(SourceLocation L){
    if(L.isInvalid()) return false;
    auto &SM=C.getSourceManager(); L=SM.getExpansionLoc(L);
    StringRef f=SM.getFilename(L);
    for(auto&p:Prefixes) if(f.starts_with(p)) return true;
    return false;
  }
  std::string fileOf(SourceLocation L){ auto &SM=C.getSourceManager(); return SM.getFilename(SM.getExpansionLoc(L)).str(); }
  int lineOf(SourceLocation L){ if(L.isInvalid()) return 0; auto &SM=C.getSourceManager(); return SM.getExpansionLineNumber(L); }
  std::string qname(const NamedDecl*D){ std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os); return s; }
  std::string recName(const RecordDecl *R){ return C.getTypeDeclType(R).getCanonicalType().getAsString(PP); }

  J::Array targs(const TemplateArgumentList &L){
    J::Array a; std::vector<TemplateArgument> flat;
    for(auto &x:L.asArray()){ if(x.getKind()==TemplateArgument::Pack){ for(auto&y:x.pack_elements()) flat.push_back(y);} else flat.push_back(x);}    
    for(auto&x:flat){
      if(x.getKind()==TemplateArgument::Type) a.push_back(J::Object{{"t",ty(x.getAsType())}});
      else if(x.getKind()==TemplateArgument::Integral) a.push_back(J::Object{{"i",llvm::toString(x.getAsIntegral(),10)}});
      else a.push_back(J::Object{{"x",1}});
    }
    return a;
  }
  int ty(QualType T){
    T=T.getCanonicalType();
    std::string s=T.getAsString(PP);
    if(const auto*RT=T->getAs<RecordType>()) if(RT->getDecl()->getName().empty() ) s+="#"+std::to_string(did(RT->getDecl()));
    auto it=typeIds.find(s); if(it!=typeIds.end()) return it->second;
    int id=types.size(); typeIds[s]=id; types.push_back(nullptr);
    J::Object o; o["s"]=s; if(T.isConstQualified()) o["c"]=1;
    const Type*t=T.getTypePtr();
    if(t->isBooleanType()) o["k"]="bool";
    else if(const auto*E=t->getAs<EnumType>()){ o["k"]="enum"; o["n"]=qname(E->getDecl()); QualType u=E->getDecl()->getIntegerType(); if(!u.isNull()){ if(u->isBooleanType()){o["w"]=8;o["sg"]=0;} else {o["w"]=(int)C.getTypeSize(u); o["sg"]=u->isSignedIntegerType()?1:0;}} addEnum(E->getDecl()); }
    else if(t->isIntegerType()){ o["k"]="int"; o["w"]=(int)C.getTypeSize(T); o["sg"]=t->isSignedIntegerType()?1:0; }
    else if(t->isFloatingType()){ o["k"]="float"; o["w"]=(int)C.getTypeSize(T); }
    else if(t->isVoidType()) o["k"]="void";
    else if(t->isNullPtrType()) o["k"]="nullptr";
    else if(t->isReferenceType()){ o["k"]="ref"; o["e"]=ty(t->getPointeeType()); o["rv"]=t->isRValueReferenceType()?1:0; }
    else if(t->isPointerType()){ o["k"]="ptr"; o["e"]=ty(t->getPointeeType()); }
    else if(const auto*A=C.getAsConstantArrayType(T)){ o["k"]="arr"; o["n"]=(int64_t)A->getSize().getZExtValue(); o["e"]=ty(A->getElementType()); }
    else if(const auto*A=C.getAsArrayType(T)){ o["k"]="arrx"; o["e"]=ty(A->getElementType()); }
    else if(const auto*R=t->getAs<RecordType>()){
      o["k"]="rec"; const RecordDecl*D=R->getDecl(); o["n"]=qname(D); if(const auto*TS=dyn_cast<ClassTemplateSpecializationDecl>(D)) o["a"]=targs(TS->getTemplateArgs());
      if(const auto*CR=dyn_cast<CXXRecordDecl>(D)) if(CR->isLambda()) o["lambda"]=did(CR);
      std::string us=s; if(T.hasQualifiers()){ us=T.getUnqualifiedType().getAsString(PP); if(R->getDecl()->getName().empty()) us+="#"+std::to_string(did(R->getDecl())); } o["id"]=us; types[id]=std::move(o); addRec(D,us); return id;
    }
    else if(t->isFunctionType()) o["k"]="func";
    else o["k"]="other";
    types[id]=std::move(o); return id;
  }
  void addEnum(const EnumDecl*D){ D=D->getDefinition()?D->getDefinition():D; if(!doneEnum.insert(D).second) return; J::Object e; for(auto*c:D->enumerators()) e[c->getNameAsString()]=llvm::toString(c->getInitVal(),10); enums[qname(D)]=std::move(e); }
  void addRec(const RecordDecl*D0,const std::string&id){
    const RecordDecl*D=D0->getDefinition(); if(!D) return; if(!doneRec.insert(D).second) return;
    const auto*R=dyn_cast<CXXRecordDecl>(D); 
    bool scoped=inScope(D->getLocation());
    J::Object o; o["n"]=qname(D); o["scoped"]=scoped?1:0;
    if(R && R->isLambda()) { records[id]=std::move(o); return; }
    J::Array fs; 
    if(scoped || D->isInStdNamespace()==false){
      for(auto*f:D->fields()){ J::Object fo; fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); if(f->isMutable()) fo["m"]=1; if(f->getInClassInitializer() && scoped && !D->isDependentContext()) fo["i"]=expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
      if(R){ J::Array bs; for(auto&b:R->bases()) { bs.push_back(ty(b.getType())); } o["b"]=std::move(bs); }
    }
    o["f"]=std::move(fs);
    if(R){ o["trivdtor"]=R->hasTrivialDestructor()?1:0; if(auto*dt=R->getDestructor()){ o["dtor"]=fkey(dt); o["userdtor"]=(dt->isUserProvided())?1:0; } 
      o["abstract"]=R->isAbstract()?1:0; }
    records[id]=std::move(o);
  }
  std::string fkey(const FunctionDecl*F){
    if(const auto*CD=dyn_cast<CXXConstructorDecl>(F)){ std::string s; llvm::raw_string_ostream os(s); MC->mangleName(GlobalDecl(CD,Ctor_Complete),os); return s; }
    if(const auto*DD=dyn_cast<CXXDestructorDecl>(F)){ std::string s; llvm::raw_string_ostream os(s); MC->mangleName(GlobalDecl(DD,Dtor_Complete),os); return s; }
    if(MC->shouldMangleDeclName(F)){ std::string s; llvm::raw_string_ostream os(s); MC->mangleName(GlobalDecl(F),os); 
      if(F->isStatic()&&false) s+=fileOf(F->getLocation()); return s; }
    return F->getNameAsString();
  }
  J::Value callee(const FunctionDecl*F){
    J::Object o; o["n"]=qname(F); o["key"]=fkey(F);
    if(const auto*M=dyn_cast<CXXMethodDecl>(F)){ o["rec"]=ty(C.getTypeDeclType(M->getParent())); if(M->isStatic()) o["static"]=1; if(M->isVirtual()) o["virt"]=1; if(M->isConst()) o["const"]=1; if(M->isDefaulted()||M->isImplicit()) o["deflt"]=1; if(M->isCopyAssignmentOperator()||M->isMoveAssignmentOperator()) o["assign"]=1; }
    if(const auto*CD=dyn_cast<CXXConstructorDecl>(F)){ if(CD->isCopyOrMoveConstructor()) o["copy"]=1; if(CD->isDefaultConstructor()) o["dctor"]=1; }
    if(const auto*TA=F->getTemplateSpecializationArgs()) o["ta"]=targs(*TA);
    J::Array ps; for(auto*p:F->parameters()) ps.push_back(ty(p->getType())); o["p"]=std::move(ps);
    o["rt"]=ty(F->getReturnType());
    const FunctionDecl*Def=nullptr; if(F->hasBody(Def)) fnQueue.push_back(Def); 
    return o;
  }
  J::Value typeOnly(QualType T){ return ty(T); }
  J::Object base(const char*k,const Expr*E){ J::Object o; o["k"]=k; o["t"]=ty(E->getType()); if(E->isLValue()) o["v"]="l"; else if(E->isXValue()) o["v"]="x"; o["l"]=lineOf(E->getExprLoc()); return o; }
  J::Array exprs(llvm::iterator_range<const Expr*const*> r){ J::Array a; for(auto*e:r) a.push_back(expr(e)); return a; }
  template<class It> J::Array args(It b, It e){ J::Array a; for(;b!=e;++b) a.push_back(expr(cast_or_null<Expr>(*b))); return a; }
  std::string apstr(const llvm::APSInt&v){ return llvm::toString(v,10); }

  J::Value expr(const Expr*E){
    if(!E) return nullptr;
    if(auto*P=dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if(auto*P=dyn_cast<FullExpr>(E)) { return expr(P->getSubExpr()); }
    if(auto*P=dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if(auto*P=dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if(auto*P=dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if(auto*P=dyn_cast<CXXDefaultInitExpr>(E)) { return expr(P->getExpr()); }
    if(auto*P=dyn_cast<CXXStdInitializerListExpr>(E)) { J::Object o=base("initlist_std",E); o["e"]=expr(P->getSubExpr()); return o; }
    if(auto*P=dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if(auto*P=dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    if(auto*P=dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    // constant folding of integral constants (not plain literals with side effects)
    if(!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)){
      Expr::EvalResult R;
      if(E->isCXX11ConstantExpr(C)&&E->EvaluateAsInt(R,C)){ J::Object o=base("int",E); o["x"]=apstr(R.Val.getInt()); return o; }
    }
    switch(E->getStmtClass()){
    case Stmt::IntegerLiteralClass: { J::Object o=base("int",E); llvm::SmallString<40> s; cast<IntegerLiteral>(E)->getValue().toString(s,10,E->getType()->isSignedIntegerType()); o["x"]=s.str().str(); return o; }
    case Stmt::CXXBoolLiteralExprClass: { J::Object o=base("int",E); o["x"]=cast<CXXBoolLiteralExpr>(E)->getValue()?"1":"0"; return o; }
    case Stmt::CharacterLiteralClass: { J::Object o=base("int",E); o["x"]=std::to_string((int)cast<CharacterLiteral>(E)->getValue()); return o; }
    case Stmt::FloatingLiteralClass: { J::Object o=base("float",E); o["x"]=cast<FloatingLiteral>(E)->getValueAsApproximateDouble(); return o; }
    case Stmt::StringLiteralClass: { J::Object o=base("str",E); J::Array b; auto*S=cast<StringLiteral>(E); for(unsigned i=0;i<S->getLength();i++) b.push_back((int)S->getCodeUnit(i)); o["x"]=std::move(b); return o; }
    case Stmt::PredefinedExprClass: { J::Object o=base("str",E); J::Array b; o["x"]=std::move(b); return o; }
    case Stmt::CXXNullPtrLiteralExprClass: return base("nullptr",E);
    case Stmt::GNUNullExprClass: return base("nullptr",E);
    case Stmt::CXXThisExprClass: return base("this",E);
    case Stmt::DeclRefExprClass: {
      auto*D=cast<DeclRefExpr>(E)->getDecl();
      if(auto*EC=dyn_cast<EnumConstantDecl>(D)){ J::Object o=base("int",E); o["x"]=llvm::toString(EC->getInitVal(),10); return o; }
      if(auto*F=dyn_cast<FunctionDecl>(D)){ J::Object o=base("fnref",E); o["f"]=callee(F); return o; }
      J::Object o=base("var",E); o["n"]=D->getNameAsString(); 
      if(auto*V=dyn_cast<VarDecl>(D)){ o["d"]=did(V); if(V->hasGlobalStorage()) { o["g"]=qname(V); global(V);} if(V->getType()->isReferenceType()) o["ref"]=1; return o; }
      if(auto*B=dyn_cast<BindingDecl>(D)){ J::Object o2=base("binding",E); o2["d"]=did(B); o2["n"]=B->getNameAsString(); return o2; }
      o["k"]="var?"; return o; }
    case Stmt::MemberExprClass: {
      auto*M=cast<MemberExpr>(E); 
      if(auto*V=dyn_cast<VarDecl>(M->getMemberDecl())){ J::Object o=base("var",E); o["n"]=V->getNameAsString(); o["d"]=did(V); o["g"]=qname(V); if(V->getType()->isReferenceType()) o["ref"]=1; global(V); return o; }
      if(auto*F=dyn_cast<FunctionDecl>(M->getMemberDecl())){ J::Object o=base("memfn",E); o["f"]=callee(F); o["e"]=expr(M->getBase()); o["arrow"]=M->isArrow()?1:0; return o; }
      J::Object o=base("mem",E); o["n"]=M->getMemberDecl()->getNameAsString(); o["e"]=expr(M->getBase()); o["arrow"]=M->isArrow()?1:0; 
      if(auto*F=dyn_cast<FieldDecl>(M->getMemberDecl())){ o["ft"]=ty(F->getType()); o["own"]=ty(C.getTypeDeclType(F->getParent())); if(F->getType()->isReferenceType()) o["ref"]=1; }
      return o; }
    case Stmt::ArraySubscriptExprClass: { auto*A=cast<ArraySubscriptExpr>(E); J::Object o=base("idx",E); o["e"]=expr(A->getBase()); o["i"]=expr(A->getIdx()); return o; }
    case Stmt::MaterializeTemporaryExprClass: { J::Object o=base("mat",E); o["e"]=expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr()); return o; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto*K=cast<CastExpr>(E); J::Object o=base("cast",E); o["ck"]=K->getCastKindName(); o["e"]=expr(K->getSubExpr()); if(isa<CXXDynamicCastExpr>(E)) o["dyn"]=1; return o; }
    case Stmt::UnaryOperatorClass: { auto*U=cast<UnaryOperator>(E); J::Object o=base("un",E); o["op"]=UnaryOperator::getOpcodeStr(U->getOpcode()).str(); if(U->isPostfix()) o["post"]=1; o["e"]=expr(U->getSubExpr()); return o; }
    case Stmt::BinaryOperatorClass: { auto*B=cast<BinaryOperator>(E); J::Object o=base("bin",E); o["op"]=B->getOpcodeStr().str(); o["a"]=expr(B->getLHS()); o["b"]=expr(B->getRHS()); return o; }
    case Stmt::CompoundAssignOperatorClass: { auto*B=cast<CompoundAssignOperator>(E); J::Object o=base("casg",E); o["op"]=B->getOpcodeStr().str(); o["a"]=expr(B->getLHS()); o["b"]=expr(B->getRHS()); o["ct"]=ty(B->getComputationLHSType()); o["crt"]=ty(B->getComputationResultType()); return o; }
    case Stmt::ConditionalOperatorClass: { auto*Q=cast<ConditionalOperator>(E); J::Object o=base("cond",E); o["c"]=expr(Q->getCond()); o["a"]=expr(Q->getTrueExpr()); o["b"]=expr(Q->getFalseExpr()); return o; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto*K=cast<CXXConstructExpr>(E); J::Object o=base("ctor",E); o["f"]=callee(K->getConstructor()); o["a"]=args(K->arg_begin(),K->arg_end()); if(K->isElidable()) o["elide"]=1; if(K->requiresZeroInitialization()) o["zero"]=1; if(K->isListInitialization()) o["list"]=1; return o; }
    case Stmt::CXXInheritedCtorInitExprClass: { auto*K=cast<CXXInheritedCtorInitExpr>(E); J::Object o=base("inhctor",E); o["f"]=callee(K->getConstructor()); return o; }
    case Stmt::CXXMemberCallExprClass: { auto*K=cast<CXXMemberCallExpr>(E); J::Object o=base("mcall",E); 
      const Expr*ce=K->getCallee()->IgnoreParens();
      if(K->getMethodDecl()){ o["f"]=callee(K->getMethodDecl()); const Expr*ob=K->getImplicitObjectArgument(); o["e"]=expr(ob); if(ob->getType()->isPointerType()) o["arrow"]=1; if(auto*ME=dyn_cast<MemberExpr>(ce)) if(ME->hasQualifier()) o["qual"]=1; }
      o["a"]=args(K->arg_begin(),K->arg_end()); return o; }
    case Stmt::CXXOperatorCallExprClass: { auto*K=cast<CXXOperatorCallExpr>(E); J::Object o=base("ocall",E); o["op"]=getOperatorSpelling(K->getOperator()); if(auto*F=K->getDirectCallee()) o["f"]=callee(F); else o["ce"]=expr(K->getCallee()); o["a"]=args(K->arg_begin(),K->arg_end()); return o; }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: { auto*K=cast<CallExpr>(E); J::Object o=base("call",E); if(auto*F=K->getDirectCallee()) o["f"]=callee(F); else o["ce"]=expr(K->getCallee()); o["a"]=args(K->arg_begin(),K->arg_end()); return o; }
    case Stmt::InitListExprClass: { auto*I=cast<InitListExpr>(E); if(I->isSemanticForm()==false && I->getSemanticForm()) I=I->getSemanticForm(); J::Object o=base("il",E); o["a"]=args(I->begin(),I->end()); if(I->hasArrayFiller()) o["fill"]=expr(I->getArrayFiller()); if(I->isTransparent()) o["transp"]=1; return o; }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return base("zero",E);
    case Stmt::LambdaExprClass: { auto*L=cast<LambdaExpr>(E); J::Object o=base("lambda",E); J::Array caps; auto ii=L->capture_init_begin(); for(auto ci=L->capture_begin();ci!=L->capture_end();++ci,++ii){ J::Object c; if(ci->capturesThis()) c["this"]= ci->getCaptureKind()==LCK_StarThis?2:1; else if(ci->capturesVariable()){ c["d"]=did(ci->getCapturedVar()); c["n"]=ci->getCapturedVar()->getNameAsString(); c["ref"]=ci->getCaptureKind()==LCK_ByRef?1:0; auto*VD=dyn_cast<VarDecl>(ci->getCapturedVar()); if(VD){ c["t"]=ty(VD->getType()); if(VD->isInitCapture()) c["initcap"]=1; } c["init"]=expr(*ii);} caps.push_back(std::move(c)); } o["caps"]=std::move(caps); 
      auto*R=L->getLambdaClass(); J::Array ops; 
      if(L->isGenericLambda()){ auto*FT=L->getDependentCallOperator(); (void)FT; if(auto*D=R->getDependentLambdaCallOperator()) for(auto*S:D->specializations()){ ops.push_back(fkey(S)); fnQueue.push_back(S);} }
      else { ops.push_back(fkey(L->getCallOperator())); fnQueue.push_back(L->getCallOperator()); }
      o["ops"]=std::move(ops); return o; }
    case Stmt::CXXThrowExprClass: { auto*T=cast<CXXThrowExpr>(E); J::Object o=base("throw",E); if(T->getSubExpr()){ o["e"]=expr(T->getSubExpr()); o["tt"]=ty(T->getSubExpr()->getType()); } return o; }
    case Stmt::CXXNewExprClass: { auto*N=cast<CXXNewExpr>(E); J::Object o=base("new",E); o["at"]=ty(N->getAllocatedType()); if(N->isArray()&&N->getArraySize()) o["n"]=expr(*N->getArraySize()); if(N->getInitializer()) o["i"]=expr(N->getInitializer()); return o; }
    case Stmt::CXXDeleteExprClass: { J::Object o=base("delete",E); o["e"]=expr(cast<CXXDeleteExpr>(E)->getArgument()); return o; }
    case Stmt::UnaryExprOrTypeTraitExprClass: { Expr::EvalResult R; J::Object o=base("int",E); if(E->EvaluateAsInt(R,C)) o["x"]=apstr(R.Val.getInt()); else o["k"]="unsup"; return o; }
    case Stmt::ArrayInitLoopExprClass: { auto*A=cast<ArrayInitLoopExpr>(E); J::Object o=base("arrcopy",E); o["e"]=expr(A->getCommonExpr()->getSourceExpr()); return o; }
    case Stmt::CXXNoexceptExprClass: case Stmt::TypeTraitExprClass: default: { J::Object o=base("unsup",E); o["c"]=E->getStmtClassName(); return o; }
    }
  }
  void global(const VarDecl*V){
    const VarDecl*Def=V; if(auto*d=V->getDefinition()) Def=d; const VarDecl*ID=nullptr; const Expr*I=Def->getAnyInitializer(ID);
    if(!doneGlob.insert(V->getCanonicalDecl()).second) return;
    J::Object o; o["n"]=qname(V); o["t"]=ty(V->getType()); o["const"]=V->getType().isConstQualified()?1:0;
    if(I && !I->isValueDependent() && (inScope(Def->getLocation()))) o["i"]=expr(I);
    globals[std::to_string(did(V))]=std::move(o);
  }
  J::Value varDecl(const VarDecl*V){
    J::Object o; o["k"]="vardecl"; o["d"]=did(V); o["n"]=V->getNameAsString(); o["t"]=ty(V->getType()); if(V->isStaticLocal()) o["static"]=1; if(V->getInit()) o["i"]=expr(V->getInit());
    if(auto*DD=dyn_cast<DecompositionDecl>(V)){ J::Array bs; for(auto*B:DD->bindings()){ J::Object b; b["d"]=did(B); b["n"]=B->getNameAsString(); b["t"]=ty(B->getType()); if(auto*hv=B->getHoldingVar()){ b["hv"]=1; } else if(B->getBinding()) b["e"]=expr(B->getBinding()); bs.push_back(std::move(b)); } o["bind"]=std::move(bs); }
    return o;
  }
  J::Value stmt(const Stmt*S){
    if(!S) return nullptr;
    J::Object o; o["l"]=lineOf(S->getBeginLoc());
    if(auto*E=dyn_cast<Expr>(S)){ o["k"]="expr"; o["e"]=expr(E); return o; }
    switch(S->getStmtClass()){
    case Stmt::CompoundStmtClass: { o["k"]="block"; J::Array a; for(auto*c:cast<CompoundStmt>(S)->body()) a.push_back(stmt(c)); o["b"]=std::move(a); o["le"]=lineOf(S->getEndLoc()); return o; }
    case Stmt::DeclStmtClass: { o["k"]="decl"; J::Array a; for(auto*d:cast<DeclStmt>(S)->decls()) if(auto*V=dyn_cast<VarDecl>(d)) a.push_back(varDecl(V)); o["b"]=std::move(a); return o; }
    case Stmt::IfStmtClass: { auto*I=cast<IfStmt>(S); 
      if(I->isConstexpr()){ if(auto r=I->getNondiscardedCase(C)){ if(*r) return stmt(*r); o["k"]="null"; return o; } }
      o["k"]="if"; if(I->getInit()) o["init"]=stmt(I->getInit()); if(I->getConditionVariable()) o["cv"]=varDecl(I->getConditionVariable()); o["c"]=expr(I->getCond()); o["a"]=stmt(I->getThen()); if(I->getElse()) o["b"]=stmt(I->getElse()); return o; }
    case Stmt::ForStmtClass: { auto*F=cast<ForStmt>(S); o["k"]="for"; if(F->getInit()) o["init"]=stmt(F->getInit()); if(F->getCond()) o["c"]=expr(F->getCond()); if(F->getInc()) o["inc"]=expr(F->getInc()); o["b"]=stmt(F->getBody()); return o; }
    case Stmt::WhileStmtClass: { auto*F=cast<WhileStmt>(S); o["k"]="for"; o["while"]=1; if(F->getConditionVariable()) o["cv"]=varDecl(F->getConditionVariable()); o["c"]=expr(F->getCond()); o["b"]=stmt(F->getBody()); return o; }
    case Stmt::DoStmtClass: { auto*F=cast<DoStmt>(S); o["k"]="do"; o["c"]=expr(F->getCond()); o["b"]=stmt(F->getBody()); return o; }
    case Stmt::CXXForRangeStmtClass: { auto*F=cast<CXXForRangeStmt>(S); o["k"]="forrange"; if(F->getInit()) o["init"]=stmt(F->getInit()); o["range"]=stmt(F->getRangeStmt()); o["begin"]=stmt(F->getBeginStmt()); o["end"]=stmt(F->getEndStmt()); o["c"]=expr(F->getCond()); o["inc"]=expr(F->getInc()); o["var"]=stmt(F->getLoopVarStmt()); o["b"]=stmt(F->getBody()); return o; }
    case Stmt::SwitchStmtClass: { auto*W=cast<SwitchStmt>(S); o["k"]="switch"; if(W->getInit()) o["init"]=stmt(W->getInit()); o["c"]=expr(W->getCond()); o["b"]=stmt(W->getBody()); return o; }
    case Stmt::CaseStmtClass: { auto*K=cast<CaseStmt>(S); o["k"]="case"; Expr::EvalResult R; if(K->getLHS()->EvaluateAsInt(R,C)) o["x"]=apstr(R.Val.getInt()); o["b"]=stmt(K->getSubStmt()); return o; }
    case Stmt::DefaultStmtClass: { o["k"]="default"; o["b"]=stmt(cast<DefaultStmt>(S)->getSubStmt()); return o; }
    case Stmt::BreakStmtClass: o["k"]="break"; return o;
    case Stmt::ContinueStmtClass: o["k"]="continue"; return o;
    case Stmt::NullStmtClass: o["k"]="null"; return o;
    case Stmt::ReturnStmtClass: { o["k"]="return"; if(auto*e=cast<ReturnStmt>(S)->getRetValue()) o["e"]=expr(e); return o; }
    case Stmt::CXXTryStmtClass: { auto*T=cast<CXXTryStmt>(S); o["k"]="try"; o["b"]=stmt(T->getTryBlock()); J::Array hs; for(unsigned i=0;i<T->getNumHandlers();i++){ auto*H=T->getHandler(i); J::Object h; if(H->getExceptionDecl()){ h["d"]=did(H->getExceptionDecl()); h["t"]=ty(H->getCaughtType()); } h["b"]=stmt(H->getHandlerBlock()); hs.push_back(std::move(h)); } o["h"]=std::move(hs); return o; }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
    default: o["k"]="unsup"; o["c"]=S->getStmtClassName(); return o;
    }
  }
  bool isLambdaOp(const FunctionDecl*F){ if(auto*M=dyn_cast<CXXMethodDecl>(F)) return M->getParent()->isLambda(); return false; }
  void fn(const FunctionDecl*F){
    const FunctionDecl*Def=nullptr; if(!F->hasBody(Def)) return; F=Def;
    if(F->isDependentContext()) return; if(!inScope(F->getLocation())) return;
    if(!doneFn.insert(F).second) return;
    J::Object o; o["n"]=qname(F); o["file"]=fileOf(F->getLocation()); o["l"]=lineOf(F->getLocation()); o["rt"]=ty(F->getReturnType()); 
    J::Array ps; for(auto*p:F->parameters()){ J::Object po; po["d"]=did(p); po["n"]=p->getNameAsString(); po["t"]=ty(p->getType()); ps.push_back(std::move(po)); } o["p"]=std::move(ps);
    if(const auto*TA=F->getTemplateSpecializationArgs()) o["ta"]=targs(*TA);
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){ o["rec"]=ty(C.getTypeDeclType(M->getParent())); if(M->isStatic()) o["static"]=1; if(M->isDefaulted()||M->isImplicit()) o["deflt"]=1; if(M->isVirtual()){ o["virt"]=1; J::Array ov; for(auto*b:M->overridden_methods()) ov.push_back(fkey(b)); o["over"]=std::move(ov);} if(M->isConst()) o["const"]=1; }
    if(auto*CD=dyn_cast<CXXConstructorDecl>(F)){ o["ctor"]=1; J::Array is; for(auto*I:CD->inits()){ J::Object io; if(I->isAnyMemberInitializer()){ io["m"]=I->getAnyMember()->getNameAsString(); io["t"]=ty(I->getAnyMember()->getType()); } else if(I->isBaseInitializer()) io["base"]=ty(QualType(I->getBaseClass(),0)); else if(I->isDelegatingInitializer()) io["deleg"]=1; io["e"]=expr(I->getInit()); is.push_back(std::move(io)); } o["inits"]=std::move(is); }
    if(isa<CXXDestructorDecl>(F)) o["dtor"]=1;
    auto*FPT=F->getType()->getAs<FunctionProtoType>(); if(FPT&&FPT->isNothrow()) o["noexcept"]=1;
    o["b"]=stmt(F->getBody());
    functions[fkey(F)]=std::move(o);
  }
};

struct V: RecursiveASTVisitor<V>{
  Dumper &D; V(Dumper&d):D(d){}
  bool shouldVisitTemplateInstantiations()const{return true;} bool shouldVisitImplicitCode()const{return false;}
  bool VisitFunctionDecl(FunctionDecl*F){ if(F->isThisDeclarationADefinition()) D.fn(F); return true; }
  bool VisitVarDecl(VarDecl*Vd){ if(Vd->hasGlobalStorage() && !Vd->getDeclContext()->isDependentContext() && !Vd->isStaticLocal() && D.inScope(Vd->getLocation()) && !Vd->getType()->isDependentType()) D.global(Vd); return true; }
};
struct Cons: ASTConsumer{ void HandleTranslationUnit(ASTContext&C) override {
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    while(!D.fnQueue.empty()){ auto*f=D.fnQueue.back(); D.fnQueue.pop_back(); D.fn(f); }
    std::error_code ec; llvm::raw_fd_ostream os(OutPath,ec);
    J::Object o; o["types"]=std::move(D.types); o["records"]=std::move(D.records); o["enums"]=std::move(D.enums); o["functions"]=std::move(D.functions); o["globals"]=std::move(D.globals);
    o["errors"]=(int)C.getDiagnostics().getClient()->getNumErrors();
    os<<J::Value(std::move(o));
}};
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef) override { return std::make_unique<Cons>(); } };

// usage: cxxdump OUT PREFIX[,PREFIX...] SRC -- clang args
int main(int argc,char**argv){
  OutPath=argv[1]; { std::string p=argv[2]; size_t i=0; while(i<=p.size()){ size_t j=p.find(',',i); if(j==std::string::npos) j=p.size(); Prefixes.push_back(p.substr(i,j-i)); i=j+1; } }
  std::string src=argv[3]; std::vector<std::string> args; for(int i=5;i<argc;i++) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".",args);
  clang::tooling::ClangTool T(DB,{src});
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
