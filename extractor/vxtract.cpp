// vxtract: dumps the resolved program (functions, classes, enums, globals) of one
// translation unit of the vega tree as JSON. It runs clang's front end only;
// nothing of vega is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::string gRoot;     // analysed tree, with trailing '/'
static std::string gOut;

namespace {

class Dumper {
public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string, int> typeIdx;
    J::Array types;

    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.SuppressUnwrittenScope = true;
        PP.Bool = true;
    }

    std::string canon(QualType t) {
        if (t.isNull()) return "?";
        return t.getCanonicalType().getAsString(PP);
    }
    std::string sugar(QualType t) {
        if (t.isNull()) return "?";
        PrintingPolicy p(C.getLangOpts());
        p.SuppressTagKeyword = true;
        p.Bool = true;
        return t.getAsString(p);
    }
    int T(QualType t) {
        std::string s = canon(t);
        auto it = typeIdx.find(s);
        if (it != typeIdx.end()) return it->second;
        int i = (int) types.size();
        types.push_back(s);
        typeIdx[s] = i;
        return i;
    }
    std::string fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        std::string s = f.str();
        // normalise
        llvm::SmallString<256> p(s);
        SM.getFileManager().makeAbsolutePath(p);
        llvm::sys::path::remove_dots(p, true);
        return std::string(p.str());
    }
    bool inRoot(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = fileOf(l);
        if (f.compare(0, gRoot.size(), gRoot) != 0) return false;
        std::string r = f.substr(gRoot.size());
        return r.compare(0, 5, "Test/") != 0 && r.compare(0, 7, "_build/") != 0;
    }
    std::string rel(SourceLocation l) {
        std::string f = fileOf(l);
        if (f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size());
        return f;
    }
    unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

    std::string usr(const Decl *d) {
        // a parameter declared const in the definition only changes the USR: use the first declaration
        if (isa<FunctionDecl>(d)) d = d->getCanonicalDecl();
        llvm::SmallString<256> b;
        if (!index::generateUSRForDecl(d, b)) return std::string(b.str());
        if (auto *nd = dyn_cast<NamedDecl>(d)) return "?" + nd->getQualifiedNameAsString();
        return "?";
    }
    std::string localId(const ValueDecl *d) {
        auto l = d->getLocation();
        return d->getNameAsString() + "@" + std::to_string(SM.getExpansionLineNumber(l)) + ":" + std::to_string(SM.getExpansionColumnNumber(l));
    }
    std::string qname(const NamedDecl *d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(C.getLangOpts());
        p.SuppressInlineNamespace = true;
        p.SuppressUnwrittenScope = true;
        d->printQualifiedName(os, p);
        return os.str();
    }

    J::Value E(const Expr *e);
    J::Value S(const Stmt *s);
    J::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        J::Array a;
        for (auto *x : r) a.push_back(E(x));
        return a;
    }
    J::Object node(const char *k, const Stmt *s) {
        J::Object o;
        o["k"] = k;
        o["l"] = (int64_t) line(s->getBeginLoc());
        return o;
    }
    void tmplArgs(J::Object &o, const FunctionDecl *fd) {
        if (auto *ta = fd->getTemplateSpecializationArgs()) {
            J::Array arr;
            for (auto &x : ta->asArray()) addTA(arr, x);
            o["ta"] = std::move(arr);
        }
    }
    void addTA(J::Array &arr, const TemplateArgument &x) {
        switch (x.getKind()) {
        case TemplateArgument::Type: arr.push_back(canon(x.getAsType())); break;
        case TemplateArgument::Pack:
            for (auto &y : x.pack_elements()) addTA(arr, y);
            break;
        case TemplateArgument::Integral: {
            llvm::SmallString<16> b; x.getAsIntegral().toString(b, 10); arr.push_back(std::string(b.str()));
            break; }
        case TemplateArgument::Declaration: arr.push_back("&" + qname(x.getAsDecl())); break;
        default: arr.push_back("?");
        }
    }
    J::Object varDecl(const VarDecl *v) {
        J::Object o;
        o["n"] = v->getNameAsString();
        o["id"] = localId(v);
        o["t"] = T(v->getType());
        o["ts"] = sugar(v->getType());
        o["l"] = (int64_t) line(v->getLocation());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->hasInit()) o["init"] = E(v->getInit());
        return o;
    }
    J::Array params(const FunctionDecl *f) {
        J::Array ps;
        for (auto *p : f->parameters()) {
            J::Object o;
            o["n"] = p->getNameAsString();
            o["id"] = localId(p);
            o["t"] = T(p->getType());
            o["ts"] = sugar(p->getOriginalType());
            if (p->hasDefaultArg()) {
                o["hasdef"] = true;
                if (!p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                    if (auto *d = p->getDefaultArg()) o["def"] = E(d);
            }
            ps.push_back(std::move(o));
        }
        return ps;
    }
    J::Object function(const FunctionDecl *f) {
        J::Object o;
        o["id"] = usr(f);
        o["q"] = qname(f);
        o["n"] = f->getNameAsString();
        o["f"] = rel(f->getLocation());
        o["l"] = (int64_t) line(f->getLocation());
        o["el"] = (int64_t) line(f->getEndLoc());
        o["p"] = params(f);
        o["r"] = T(f->getReturnType());
        o["rs"] = sugar(f->getReturnType());
        tmplArgs(o, f);
        if (auto *fpt = f->getType()->getAs<FunctionProtoType>())
            if (isNoexceptExceptionSpec(fpt->getExceptionSpecType()) && fpt->canThrow() == CT_Cannot) o["noexcept"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = canon(C.getRecordType(m->getParent()));
            if (m->isVirtual()) o["virtual"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            J::Array ov;
            for (auto *x : m->overridden_methods()) ov.push_back(usr(x));
            if (!ov.empty()) o["ov"] = std::move(ov);
            if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) {
                o["kind"] = cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : "ctor";
                J::Array in;
                for (auto *i : cd->inits()) {
                    J::Object io;
                    if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
                    else if (i->isBaseInitializer()) io["base"] = canon(QualType(i->getBaseClass(), 0));
                    else if (i->isDelegatingInitializer()) io["deleg"] = true;
                    io["written"] = i->isWritten();
                    if (i->getInit()) io["e"] = E(i->getInit());
                    in.push_back(std::move(io));
                }
                o["inits"] = std::move(in);
            } else if (isa<CXXDestructorDecl>(m)) o["kind"] = "dtor";
            else if (isa<CXXConversionDecl>(m)) o["kind"] = "conv";
        }
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->doesThisDeclarationHaveABody() && f->getBody()) o["body"] = S(f->getBody());
        return o;
    }
};

static const Expr *strip(const Expr *e) {
    for (;;) {
        if (!e) return e;
        if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
        if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
        if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
        if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
            switch (x->getCastKind()) {
            case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
            case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
                return e;
            default: e = x->getSubExpr(); continue;
            }
        }
        return e;
    }
}

J::Value Dumper::E(const Expr *e0) {
    const Expr *e = strip(e0);
    if (!e) return nullptr;
    if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        auto o = node("icast", e);
        o["ck"] = x->getCastKindName();
        o["t"] = T(x->getType());
        o["e"] = E(x->getSubExpr());
        return o;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
        auto o = node("int", e);
        llvm::SmallString<16> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
        o["v"] = (int64_t) x->getValue().getLimitedValue();
        return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
        auto o = node("float", e);
        o["v"] = x->getValueAsApproximateDouble();
        return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
        auto o = node("str", e);
        std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : std::string("<wide>");
        o["v"] = llvm::json::isUTF8(s) ? s : llvm::json::fixUTF8(s);
        return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
        auto o = node("char", e);
        o["v"] = (int64_t) x->getValue();
        return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = node("bool", e); o["v"] = x->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return node("null", e);
    if (isa<CXXThisExpr>(e)) { auto o = node("this", e); o["t"] = T(e->getType()); return o; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
        auto o = node("ref", e);
        const ValueDecl *d = x->getDecl();
        o["n"] = d->getNameAsString();
        o["t"] = T(e->getType());
        if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
            o["dk"] = "enumc"; o["q"] = qname(ec);
            o["v"] = (int64_t) ec->getInitVal().getExtValue();
        } else if (auto *fd = dyn_cast<FunctionDecl>(d)) {
            o["dk"] = "fn"; o["q"] = qname(fd); o["id"] = usr(fd); tmplArgs(o, fd);
        } else if (auto *vd = dyn_cast<VarDecl>(d)) {
            if (isa<ParmVarDecl>(vd)) { o["dk"] = "parm"; o["id"] = localId(vd); }
            else if (vd->isLocalVarDecl() || vd->isStaticLocal()) { o["dk"] = "var"; o["id"] = localId(vd); }
            else { o["dk"] = "global"; o["q"] = qname(vd); o["id"] = usr(vd); }
            if (!sugar(vd->getType()).empty()) o["ts"] = sugar(vd->getType());
        } else { o["dk"] = "other"; o["q"] = qname(d); }
        return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
        const ValueDecl *d = x->getMemberDecl();
        if (auto *vd = dyn_cast<VarDecl>(d)) {
            auto o = node("ref", e);
            o["dk"] = "global"; o["n"] = vd->getNameAsString(); o["q"] = qname(vd); o["id"] = usr(vd); o["t"] = T(e->getType());
            o["ts"] = sugar(vd->getType());
            return o;
        }
        if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
            auto o = node("ref", e); o["dk"] = "enumc"; o["n"] = ec->getNameAsString(); o["q"] = qname(ec); o["v"] = (int64_t) ec->getInitVal().getExtValue();
            return o;
        }
        auto o = node("mem", e);
        o["n"] = d->getNameAsString();
        o["q"] = qname(d);
        o["t"] = T(e->getType());
        if (isa<FieldDecl>(d)) o["ts"] = sugar(d->getType());
        if (isa<CXXMethodDecl>(d)) { o["id"] = usr(d); o["method"] = true; }
        o["b"] = E(x->getBase());
        if (x->isArrow()) o["arrow"] = true;
        return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        auto *cd = x->getConstructor();
        auto o = node("ctor", e);
        o["q"] = canon(C.getRecordType(cd->getParent()));
        o["id"] = usr(cd);
        o["t"] = T(e->getType());
        J::Array a;
        for (auto *y : x->arguments()) a.push_back(E(y));
        o["a"] = std::move(a);
        if (cd->isCopyOrMoveConstructor()) o["cp"] = true;
        if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
        return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
        auto o = node("ctor", e);
        o["q"] = canon(C.getRecordType(x->getConstructor()->getParent()));
        o["id"] = usr(x->getConstructor()); o["a"] = J::Array(); o["inherited"] = true;
        return o;
    }
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
        auto o = node("defarg", e);
        o["e"] = E(x->getExpr());
        return o;
    }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
        auto o = node("definit", e);
        o["field"] = x->getField()->getNameAsString();
        o["e"] = E(x->getExpr());
        return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
        auto o = node("call", e);
        o["t"] = T(e->getType());
        const FunctionDecl *fd = x->getDirectCallee();
        unsigned skip = 0;
        if (auto *m = dyn_cast<CXXMemberCallExpr>(x)) {
            if (auto *ce = dyn_cast_or_null<MemberExpr>(strip(m->getCallee()))) {
                o["o"] = E(ce->getBase());
                if (ce->isArrow()) o["arrow"] = true;
                if (auto *md = m->getMethodDecl()) {
                    if (md->isVirtual() && !ce->hasQualifier()) o["v"] = true;
                }
            } else {
                // pointer to member call
                o["ptm"] = E(m->getCallee());
            }
        } else if (auto *op = dyn_cast<CXXOperatorCallExpr>(x)) {
            o["op"] = getOperatorSpelling(op->getOperator());
            if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic() && x->getNumArgs() > 0) {
                o["o"] = E(x->getArg(0));
                skip = 1;
                if (cast<CXXMethodDecl>(fd)->isVirtual()) o["v"] = true;
            }
        }
        if (fd) {
            o["q"] = qname(fd);
            o["id"] = usr(fd);
            o["n"] = fd->getNameAsString();
            tmplArgs(o, fd);
            if (auto *md = dyn_cast<CXXMethodDecl>(fd)) o["cls"] = canon(C.getRecordType(md->getParent()));
            o["rs"] = sugar(fd->getReturnType());
        } else {
            o["callee"] = E(x->getCallee());
        }
        J::Array a;
        for (unsigned i = skip; i < x->getNumArgs(); i++) a.push_back(E(x->getArg(i)));
        o["a"] = std::move(a);
        return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
        auto o = node("un", e);
        o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
        if (x->isPostfix()) o["post"] = true;
        o["t"] = T(e->getType());
        o["e"] = E(x->getSubExpr());
        return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
        auto o = node(x->isAssignmentOp() ? "asg" : "bin", e);
        o["op"] = x->getOpcodeStr();
        o["t"] = T(e->getType());
        o["a"] = E(x->getLHS());
        o["b"] = E(x->getRHS());
        return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
        auto o = node("cond", e);
        o["t"] = T(e->getType());
        o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr());
        return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
        auto o = node("sub", e);
        o["t"] = T(e->getType());
        o["b"] = E(x->getBase()); o["i"] = E(x->getIdx());
        return o;
    }
    if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
        auto o = node("cast", e);
        o["ck"] = x->getCastKindName();
        o["t"] = T(x->getType());
        o["ts"] = sugar(x->getTypeAsWritten());
        o["e"] = E(x->getSubExpr());
        return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
        auto o = node("init", e);
        o["t"] = T(e->getType());
        J::Array a;
        for (auto *y : x->inits()) a.push_back(E(y));
        o["a"] = std::move(a);
        return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
        auto o = node("lambda", e);
        o["p"] = params(x->getCallOperator());
        o["id"] = usr(x->getCallOperator());
        o["body"] = S(x->getBody());
        return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
        auto o = node("new", e);
        o["t"] = T(x->getAllocatedType());
        if (x->isArray()) o["arr"] = true;
        if (auto *in = x->getInitializer()) o["e"] = E(in);
        return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { auto o = node("del", e); o["e"] = E(x->getArgument()); return o; }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
        auto o = node("throw", e);
        if (x->getSubExpr()) { o["e"] = E(x->getSubExpr()); o["tt"] = T(x->getSubExpr()->getType()); }
        return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { auto o = node("zero", e); o["t"] = T(e->getType()); return o; }
    auto o = node("opaque", e);
    o["cls"] = e->getStmtClassName();
    o["t"] = T(e->getType());
    J::Array a;
    for (auto *ch : e->children())
        if (auto *ce = dyn_cast_or_null<Expr>(ch)) a.push_back(E(ce));
    o["a"] = std::move(a);
    return o;
}

J::Value Dumper::S(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *x = dyn_cast<Expr>(s)) { auto o = node("expr", s); o["e"] = E(x); return o; }
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
        auto o = node("block", s);
        J::Array a;
        for (auto *y : x->body()) a.push_back(S(y));
        o["s"] = std::move(a);
        return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
        auto o = node("decl", s);
        J::Array a;
        for (auto *d : x->decls())
            if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
        o["v"] = std::move(a);
        return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
        auto o = node("if", s);
        if (x->getInit()) o["init"] = S(x->getInit());
        if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
        o["c"] = E(x->getCond()); o["a"] = S(x->getThen());
        if (x->getElse()) o["b"] = S(x->getElse());
        return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
        auto o = node("for", s);
        if (x->getInit()) o["init"] = S(x->getInit());
        if (x->getCond()) o["c"] = E(x->getCond());
        if (x->getInc()) o["inc"] = E(x->getInc());
        o["body"] = S(x->getBody());
        return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
        auto o = node("rfor", s);
        o["v"] = varDecl(x->getLoopVariable());
        o["r"] = E(x->getRangeInit());
        o["rt"] = T(x->getRangeInit()->getType());
        if (auto *bs = x->getBeginStmt()) {
            if (auto *bd = dyn_cast<DeclStmt>(bs))
                if (auto *bv = dyn_cast_or_null<VarDecl>(bd->getSingleDecl())) o["it"] = T(bv->getType());
        }
        o["body"] = S(x->getBody());
        return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
        auto o = node("while", s);
        if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
        o["c"] = E(x->getCond()); o["body"] = S(x->getBody());
        return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
        auto o = node("do", s);
        o["c"] = E(x->getCond()); o["body"] = S(x->getBody());
        return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
        auto o = node("switch", s);
        o["c"] = E(x->getCond());
        o["ct"] = T(x->getCond()->IgnoreParenImpCasts()->getType());
        o["body"] = S(x->getBody());
        return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
        auto o = node("case", s);
        o["v"] = E(x->getLHS()); o["s"] = S(x->getSubStmt());
        return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { auto o = node("default", s); o["s"] = S(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
        auto o = node("return", s);
        if (x->getRetValue()) o["e"] = E(x->getRetValue());
        return o;
    }
    if (isa<BreakStmt>(s)) return node("break", s);
    if (isa<ContinueStmt>(s)) return node("continue", s);
    if (isa<NullStmt>(s)) return node("nop", s);
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
        auto o = node("try", s);
        o["body"] = S(x->getTryBlock());
        J::Array h;
        for (unsigned i = 0; i < x->getNumHandlers(); i++) {
            auto *hc = x->getHandler(i);
            auto ho = node("catch", hc);
            if (hc->getExceptionDecl()) {
                ho["t"] = T(hc->getCaughtType());
                ho["v"] = varDecl(hc->getExceptionDecl());
            }
            ho["body"] = S(hc->getHandlerBlock());
            h.push_back(std::move(ho));
        }
        o["h"] = std::move(h);
        return o;
    }
    auto o = node("ostmt", s);
    o["cls"] = s->getStmtClassName();
    J::Array a;
    for (auto *ch : s->children()) if (ch) a.push_back(S(ch));
    o["a"] = std::move(a);
    return o;
}

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper &D;
    J::Array functions, classes, enums, globals, news;
    std::set<std::string> seenF, seenC, seenE, seenG, seenN;
    explicit Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool VisitFunctionDecl(FunctionDecl *f) {
        if (f->isDependentContext()) return true;
        if (!D.inRoot(f->getLocation())) { constructIn(f); return true; }
        constructIn(f);
        bool def = f->doesThisDeclarationHaveABody() && f->getBody();
        if (!def && !f->isDefaulted()) return true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda()) return true;
        std::string u = D.usr(f);
        if (!seenF.insert(u).second) return true;
        functions.push_back(D.function(f));
        return true;
    }
    // which constructor does a forwarding factory (make_shared, emplace, ...) reach?
    void constructIn(FunctionDecl *f) {
        auto *ta = f->getTemplateSpecializationArgs();
        if (!ta || !f->hasBody()) return;
        auto nm = f->getNameAsString();
        if (nm != "construct" && nm != "_Construct" && nm != "make_unique" && nm != "construct_at") return;
        struct NV : RecursiveASTVisitor<NV> {
            std::vector<const CXXConstructExpr *> v;
            bool shouldVisitTemplateInstantiations() const { return true; }
            bool VisitCXXNewExpr(CXXNewExpr *n) {
                if (auto *c = n->getConstructExpr()) v.push_back(c);
                return true;
            }
        } nv;
        nv.TraverseStmt(f->getBody());
        for (auto *c : nv.v) {
            std::string cls = D.canon(D.C.getRecordType(c->getConstructor()->getParent()));
            if (cls.find("vega") == std::string::npos) continue;
            J::Object o;
            J::Array a;
            for (auto &x : ta->asArray()) D.addTA(a, x);
            o["cls"] = cls; o["ctor"] = D.usr(c->getConstructor()); o["fn"] = nm;
            o["ta"] = std::move(a);
            std::string key = nm + "|" + cls + "|" + D.usr(f);
            if (seenN.insert(key).second) news.push_back(std::move(o));
        }
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
        if (!D.inRoot(r->getLocation())) return true;
        std::string q = D.canon(D.C.getRecordType(r));
        if (!seenC.insert(q).second) return true;
        J::Object o;
        o["q"] = q; o["f"] = D.rel(r->getLocation()); o["l"] = (int64_t) D.line(r->getLocation());
        o["tq"] = D.qname(r);
        if (r->isAbstract()) o["abstract"] = true;
        if (r->isPolymorphic()) o["poly"] = true;
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            J::Array a;
            for (auto &x : sp->getTemplateArgs().asArray()) D.addTA(a, x);
            o["ta"] = std::move(a);
        }
        J::Array bs;
        for (auto &b : r->bases()) bs.push_back(D.canon(b.getType()));
        o["bases"] = std::move(bs);
        J::Array fs;
        for (auto *f : r->fields()) {
            J::Object fo;
            fo["n"] = f->getNameAsString(); fo["q"] = D.qname(f); fo["t"] = D.T(f->getType()); fo["ts"] = D.sugar(f->getType());
            fo["l"] = (int64_t) D.line(f->getLocation());
            fo["acc"] = (int64_t) f->getAccess();
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer()) { fo["hasinit"] = true; if (f->getInClassInitializer()) fo["init"] = D.E(f->getInClassInitializer()); }
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        J::Array ms;
        for (auto *m : r->methods()) {
            J::Object mo;
            mo["id"] = D.usr(m); mo["n"] = m->getNameAsString(); mo["q"] = D.qname(m);
            mo["l"] = (int64_t) D.line(m->getLocation());
            mo["r"] = D.T(m->getReturnType());
            mo["p"] = D.params(m);
            mo["acc"] = (int64_t) m->getAccess();
            if (m->isVirtual()) mo["virtual"] = true;
            if (m->isPureVirtual()) mo["pure"] = true;
            if (m->isConst()) mo["const"] = true;
            if (m->isStatic()) mo["static"] = true;
            if (m->isDeleted()) mo["deleted"] = true;
            if (m->isDefaulted()) mo["defaulted"] = true;
            if (m->isImplicit()) mo["implicit"] = true;
            if (m->isUserProvided()) mo["user"] = true;
            J::Array ov;
            for (auto *x : m->overridden_methods()) ov.push_back(D.usr(x));
            if (!ov.empty()) mo["ov"] = std::move(ov);
            if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) {
                mo["kind"] = cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : "ctor";
                if (cd->isExplicit()) mo["explicit"] = true;
            } else if (isa<CXXDestructorDecl>(m)) mo["kind"] = "dtor";
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        classes.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e) {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext()) return true;
        if (!D.inRoot(e->getLocation())) return true;
        std::string q = D.qname(e);
        if (!seenE.insert(q).second) return true;
        J::Object o;
        o["q"] = q; o["f"] = D.rel(e->getLocation()); o["l"] = (int64_t) D.line(e->getLocation());
        o["t"] = D.T(D.C.getEnumType(e));
        J::Array a;
        for (auto *c : e->enumerators()) {
            J::Object eo;
            eo["n"] = c->getNameAsString(); eo["v"] = (int64_t) c->getInitVal().getExtValue();
            a.push_back(std::move(eo));
        }
        o["e"] = std::move(a);
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (isa<ParmVarDecl>(v) || v->isLocalVarDecl() || v->isStaticLocal()) return true;
        if (!v->hasGlobalStorage() || v->getDeclContext()->isDependentContext()) return true;
        if (!D.inRoot(v->getLocation())) return true;
        if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !v->hasInit()) return true;
        std::string u = D.usr(v);
        if (!seenG.insert(u).second) return true;
        J::Object o;
        o["id"] = u; o["q"] = D.qname(v); o["n"] = v->getNameAsString();
        o["f"] = D.rel(v->getLocation()); o["l"] = (int64_t) D.line(v->getLocation());
        o["t"] = D.T(v->getType()); o["ts"] = D.sugar(v->getType());
        if (v->getType().isConstQualified()) o["const"] = true;
        if (v->hasInit()) o["init"] = D.E(v->getInit());
        globals.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    std::string file;
    explicit Consumer(std::string f) : file(std::move(f)) {}
    void HandleTranslationUnit(ASTContext &C) override {
        Dumper d(C);
        Visitor v(d);
        v.TraverseDecl(C.getTranslationUnitDecl());
        J::Object o;
        o["tu"] = file;
        o["errors"] = (int64_t) C.getDiagnostics().getClient()->getNumErrors();
        o["functions"] = std::move(v.functions);
        o["classes"] = std::move(v.classes);
        o["enums"] = std::move(v.enums);
        o["globals"] = std::move(v.globals);
        o["news"] = std::move(v.news);
        o["types"] = std::move(d.types);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << J::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef f) override { return std::make_unique<Consumer>(f.str()); }
};
} // namespace

int main(int argc, char **argv) {
    // vxtract ROOT OUT FILE -- flags...
    if (argc < 5) { llvm::errs() << "usage: vxtract ROOT OUT FILE -- FLAGS\n"; return 2; }
    gRoot = argv[1];
    if (gRoot.back() != '/') gRoot += '/';
    gOut = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
