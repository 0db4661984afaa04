// refactor: applies one kind of behaviour-preserving edit at every (non-overlapping) site of a file.  Development tool, used to
// look for false alarms; never run by a check.      refactor MODE SEED FILE OUT -- FLAGS
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <string>
#include <vector>
using namespace clang;
static std::string gMode, gOut; static unsigned gSeed;
struct Site { unsigned a, b; std::string text; };

class V : public RecursiveASTVisitor<V> {
public:
    ASTContext &C; SourceManager &SM; std::vector<Site> sites; int n = 0; const FunctionDecl *F = nullptr;
    explicit V(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool bad(SourceRange r) { return r.getBegin().isMacroID() || r.getEnd().isMacroID() || !SM.isWrittenInMainFile(r.getBegin()) || !SM.isWrittenInMainFile(r.getEnd()); }
    unsigned off(SourceLocation l) { return SM.getFileOffset(l); }
    unsigned endOff(SourceLocation l) { return off(Lexer::getLocForEndOfToken(l, 0, SM, C.getLangOpts())); }
    std::string buf() { return SM.getBufferData(SM.getMainFileID()).str(); }
    std::string txt(unsigned a, unsigned b) { return buf().substr(a, b - a); }
    std::string txt(const Stmt *s) { return txt(off(s->getBeginLoc()), endOff(s->getEndLoc())); }
    // end of a statement, with its semicolon
    unsigned stmtEnd(const Stmt *s) {
        if (isa<CompoundStmt>(s) || isa<DeclStmt>(s)) return endOff(s->getEndLoc());
        if (auto i = dyn_cast<IfStmt>(s)) return stmtEnd(i->getElse() ? i->getElse() : i->getThen());
        if (auto i = dyn_cast<ForStmt>(s)) return stmtEnd(i->getBody());
        if (auto i = dyn_cast<WhileStmt>(s)) return stmtEnd(i->getBody());
        if (auto i = dyn_cast<CXXForRangeStmt>(s)) return stmtEnd(i->getBody());
        if (auto i = dyn_cast<SwitchStmt>(s)) return stmtEnd(i->getBody());
        if (auto i = dyn_cast<SwitchCase>(s)) return stmtEnd(i->getSubStmt());
        if (isa<CXXTryStmt>(s)) return endOff(s->getEndLoc());
        unsigned e = endOff(s->getEndLoc());
        std::string b = buf();
        while (e < b.size() && isspace(b[e])) e++;
        if (e < b.size() && b[e] == ';') return e + 1;
        return 0;
    }
    std::string stmt(const Stmt *s) { unsigned e = stmtEnd(s); return e ? txt(off(s->getBeginLoc()), e) : ""; }
    std::string block(const Stmt *s) { std::string t = stmt(s); return isa<CompoundStmt>(s) ? t : "{ " + t + " }"; }
    std::string inner(const Stmt *s) { std::string t = stmt(s); return isa<CompoundStmt>(s) ? t.substr(1, t.size() - 2) : t; }
    void put(SourceLocation a, unsigned e, std::string t) { if (e) sites.push_back({off(a), e, t}); }
    std::string nm(const char *p) { return std::string("vx_") + p + std::to_string(n++); }
    template <class T> const T *parent(const Stmt *s) { auto p = C.getParents(*s); return p.empty() ? nullptr : p[0].get<T>(); }
    // jumps leaving the statement
    bool jumps(const Stmt *s, bool loop = false, bool sw = false, bool rets = true) {
        if (!s) return false;
        if (isa<LambdaExpr>(s)) return false;
        if (rets && isa<ReturnStmt>(s)) return true;
        if (isa<GotoStmt>(s)) return true;
        if (isa<BreakStmt>(s)) return !loop && !sw;
        if (isa<ContinueStmt>(s)) return !loop;
        bool l = loop || isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CXXForRangeStmt>(s);
        bool w = sw || isa<SwitchStmt>(s);
        for (auto c : s->children()) if (jumps(c, l, w, rets)) return true;
        return false;
    }
    bool hasCont(const Stmt *s) {
        if (!s || isa<LambdaExpr>(s)) return false;
        if (isa<ContinueStmt>(s)) return true;
        if (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CXXForRangeStmt>(s)) return false;
        for (auto c : s->children()) if (hasCont(c)) return true;
        return false;
    }
    bool refs(const Stmt *s, const ValueDecl *d) {
        if (!s) return false;
        if (auto r = dyn_cast<DeclRefExpr>(s)) if (r->getDecl() == d) return true;
        for (auto c : s->children()) if (refs(c, d)) return true;
        return false;
    }
    bool pure(const Stmt *s) {
        if (!s) return true;
        if (auto b = dyn_cast<BinaryOperator>(s)) if (b->isAssignmentOp()) return false;
        if (auto u = dyn_cast<UnaryOperator>(s)) if (u->isIncrementDecrementOp()) return false;
        if (isa<CXXNewExpr>(s) || isa<CXXDeleteExpr>(s) || isa<CXXThrowExpr>(s) || isa<LambdaExpr>(s)) return false;
        if (auto c = dyn_cast<CallExpr>(s)) {
            auto f = c->getDirectCallee();
            if (!f) return false;
            auto m = dyn_cast<CXXMethodDecl>(f);
            if (m && !m->isConst() && !m->isStatic()) {
                std::string q = f->getNameAsString();
                if (!(q == "begin" || q == "end" || q == "find" || q == "front" || q == "back" || q == "at" || q == "operator[]" || q == "operator*" || q == "operator->")) return false;
                if (q == "operator[]") return false;
            }
        }
        for (auto c : s->children()) if (!pure(c)) return false;
        return true;
    }
    bool TraverseFunctionDecl(FunctionDecl *f) { auto o = F; F = f; bool r = RecursiveASTVisitor::TraverseFunctionDecl(f); F = o; return r; }
    bool TraverseCXXMethodDecl(CXXMethodDecl *f) { auto o = F; F = f; bool r = RecursiveASTVisitor::TraverseCXXMethodDecl(f); F = o; return r; }

    bool VisitIfStmt(IfStmt *s) {
        if (bad(s->getSourceRange()) || s->getConditionVariable() || s->getInit()) return true;
        std::string c = txt(s->getCond());
        if (gMode == "inv" && s->getElse() && !isa<IfStmt>(s->getElse()))
            put(s->getBeginLoc(), stmtEnd(s), "if (!(" + c + ")) " + block(s->getElse()) + " else " + block(s->getThen()));
        if (gMode == "elsif" && s->getElse() && isa<IfStmt>(s->getElse()))
            put(s->getBeginLoc(), stmtEnd(s), "if (" + c + ") " + block(s->getThen()) + " else { " + stmt(s->getElse()) + " }");
        if (gMode == "and" && !s->getElse())
            if (auto b = dyn_cast<BinaryOperator>(s->getCond()->IgnoreParenImpCasts()))
                if (b->getOpcode() == BO_LAnd)
                    put(s->getBeginLoc(), stmtEnd(s), "if (" + txt(b->getLHS()) + ") { if (" + txt(b->getRHS()) + ") " + block(s->getThen()) + " }");
        if (gMode == "cond" && parent<CompoundStmt>(s)) {
            std::string t = nm("c");
            put(s->getBeginLoc(), stmtEnd(s), "const bool " + t + " = static_cast<bool>(" + c + "); if (" + t + ") " + block(s->getThen()) + (s->getElse() ? " else " + stmt(s->getElse()) : ""));
        }
        if (gMode == "demorgan")
            if (auto b = dyn_cast<BinaryOperator>(s->getCond()->IgnoreParenImpCasts()))
                if (b->isLogicalOp())
                    put(s->getCond()->getBeginLoc(), endOff(s->getCond()->getEndLoc()), std::string("!(!(") + txt(b->getLHS()) + ") " + (b->getOpcode() == BO_LAnd ? "||" : "&&") + " !(" + txt(b->getRHS()) + "))");
        if (gMode == "lambda" && isa<CompoundStmt>(s->getThen()) && !jumps(s->getThen()) && !s->getThen()->children().empty())
            put(s->getThen()->getBeginLoc(), stmtEnd(s->getThen()), "{ [&]() " + stmt(s->getThen()) + "(); }");
        return true;
    }
    bool VisitCompoundStmt(CompoundStmt *s) {
        if (bad(s->getSourceRange()) || s->body_empty()) return true;
        auto p = C.getParents(*s);
        const Stmt *ps = p.empty() ? nullptr : p[0].get<Stmt>();
        const FunctionDecl *pf = p.empty() ? nullptr : p[0].get<FunctionDecl>();
        bool loopBody = ps && ((isa<ForStmt>(ps) && cast<ForStmt>(ps)->getBody() == s) || (isa<WhileStmt>(ps) && cast<WhileStmt>(ps)->getBody() == s) || (isa<CXXForRangeStmt>(ps) && cast<CXXForRangeStmt>(ps)->getBody() == s));
        bool voidBody = pf && pf->getReturnType()->isVoidType() && !isa<CXXConstructorDecl>(pf) && !isa<CXXDestructorDecl>(pf);
        if (gMode == "early" && (loopBody || voidBody)) {
            auto l = s->body_back();
            if (auto i = dyn_cast<IfStmt>(l))
                if (!i->getElse() && !i->getConditionVariable() && !bad(i->getSourceRange()))
                    put(i->getBeginLoc(), stmtEnd(i), "if (!(" + txt(i->getCond()) + ")) { " + (loopBody ? "continue" : "return") + "; } " + inner(i->getThen()));
        }
        if (gMode == "late" && (loopBody || voidBody)) {
            std::vector<Stmt *> b(s->body_begin(), s->body_end());
            for (size_t k = 0; k + 1 < b.size(); k++)
                if (auto i = dyn_cast<IfStmt>(b[k])) {
                    if (i->getElse() || i->getConditionVariable() || bad(i->getSourceRange())) continue;
                    auto t = dyn_cast<CompoundStmt>(i->getThen());
                    const Stmt *last = t ? (t->body_empty() ? nullptr : t->body_back()) : i->getThen();
                    bool ok = last && ((loopBody && isa<ContinueStmt>(last)) || (voidBody && isa<ReturnStmt>(last)));
                    if (!ok) continue;
                    std::string rest = txt(off(b[k + 1]->getBeginLoc()), off(s->getEndLoc()));
                    std::string th;
                    if (t) for (auto x : t->body()) if (x != last) th += stmt(x) + " ";
                    put(i->getBeginLoc(), off(s->getEndLoc()), "if (" + txt(i->getCond()) + ") { " + th + "} else { " + rest + "}\n");
                    break;
                }
        }
        if (gMode == "swap") {
            std::vector<Stmt *> b(s->body_begin(), s->body_end());
            for (size_t k = 0; k + 1 < b.size(); k++) {
                auto x = dyn_cast<DeclStmt>(b[k]), y = dyn_cast<DeclStmt>(b[k + 1]);
                if (!x || !y || !x->isSingleDecl() || !y->isSingleDecl()) continue;
                auto vx = dyn_cast<VarDecl>(x->getSingleDecl()), vy = dyn_cast<VarDecl>(y->getSingleDecl());
                if (!vx || !vy || bad(x->getSourceRange()) || bad(y->getSourceRange())) continue;
                if (refs(vy->getInit(), vx) || !pure(vx->getInit()) || !pure(vy->getInit())) continue;
                put(x->getBeginLoc(), stmtEnd(y), stmt(y) + " " + stmt(x));
                k++;
            }
        }
        if (gMode == "strjoin") {
            std::vector<Stmt *> b(s->body_begin(), s->body_end());
            for (size_t k = 0; k + 1 < b.size(); k++) {
                const Expr *o1 = ostr(b[k]), *o2 = ostr(b[k + 1]);
                if (!o1 || !o2 || txt(o1) != txt(o2) || bad(b[k]->getSourceRange()) || bad(b[k + 1]->getSourceRange())) continue;
                std::string t2 = txt(b[k + 1]);
                put(b[k]->getBeginLoc(), stmtEnd(b[k + 1]), txt(b[k]) + t2.substr(txt(o2).size()) + ";");
                k++;
            }
        }
        if (gMode == "group") {      // two adjacent statements moved into a lambda
            std::vector<Stmt *> b(s->body_begin(), s->body_end());
            for (size_t k = 0; k + 1 < b.size(); k += 2) {
                if (isa<DeclStmt>(b[k]) || isa<DeclStmt>(b[k + 1]) || isa<SwitchCase>(b[k]) || isa<SwitchCase>(b[k + 1]) || jumps(b[k]) || jumps(b[k + 1]) || bad(b[k]->getSourceRange()) || bad(b[k + 1]->getSourceRange())) continue;
                if (isa<NullStmt>(b[k]) || isa<NullStmt>(b[k + 1])) continue;
                std::string f = nm("f");
                put(b[k]->getBeginLoc(), stmtEnd(b[k + 1]), "const auto " + f + " = [&]() { " + stmt(b[k]) + " " + stmt(b[k + 1]) + " }; " + f + "();");
            }
        }
        for (auto x : s->body()) {
            auto e = dyn_cast<Expr>(x);
            if (gMode == "noop" && (k0++ % 3) == 0 && !isa<SwitchCase>(x) && !bad(x->getSourceRange()) && stmtEnd(x)) {
                put(x->getBeginLoc(), off(x->getBeginLoc()), "{ int vx_u = 0; (void) vx_u; } ");
                sites.back().b = sites.back().a;
            }
            if (!e || bad(e->getSourceRange())) continue;
            auto core = e->IgnoreImplicit();
            if (auto ew = dyn_cast<ExprWithCleanups>(core)) core = ew->getSubExpr()->IgnoreImplicit();
            if (gMode == "tmp")
                if (auto c = dyn_cast<CallExpr>(core)) {
                    if (isa<CXXOperatorCallExpr>(c)) continue;
                    for (unsigned k = 0; k < c->getNumArgs(); k++) {
                        const Expr *a = c->getArg(k);
                        if (isa<CXXDefaultArgExpr>(a)) break;
                        auto a0 = a->IgnoreImplicit();
                        if (!isa<CallExpr>(a0) && !isa<MemberExpr>(a0)) continue;
                        if (bad(a->getSourceRange())) continue;
                        bool okk = true;
                        for (unsigned j = 0; j < c->getNumArgs(); j++) if (j != k && !isa<CXXDefaultArgExpr>(c->getArg(j)) && !pure(c->getArg(j))) okk = false;
                        if (auto mc = dyn_cast<CXXMemberCallExpr>(c)) if (!pure(mc->getImplicitObjectArgument())) okk = false;
                        if (!okk) continue;
                        std::string t = nm("t");
                        unsigned ca = off(e->getBeginLoc()), aa = off(a->getBeginLoc()), ab = endOff(a->getEndLoc());
                        put(e->getBeginLoc(), stmtEnd(e), "auto&& " + t + " = " + txt(a) + "; " + txt(ca, aa) + t + txt(ab, stmtEnd(e)));
                        break;
                    }
                }
            if (gMode == "ternif")
                if (auto b = dyn_cast<BinaryOperator>(core))
                    if (b->getOpcode() == BO_Assign)
                        if (auto c = dyn_cast<ConditionalOperator>(b->getRHS()->IgnoreParenImpCasts()))
                            put(e->getBeginLoc(), stmtEnd(e), "if (" + txt(c->getCond()) + ") { " + txt(b->getLHS()) + " = " + txt(c->getTrueExpr()) + "; } else { " + txt(b->getLHS()) + " = " + txt(c->getFalseExpr()) + "; }");
            if (gMode == "strsplit")
                if (auto o = dyn_cast<CXXOperatorCallExpr>(core))
                    if (o->getOperator() == OO_LessLess && o->getNumArgs() == 2)
                        if (auto l = dyn_cast<CXXOperatorCallExpr>(o->getArg(0)->IgnoreParenImpCasts()))
                            if (l->getOperator() == OO_LessLess) {
                                const Expr *base = ostr(e);
                                if (!base || !isa<DeclRefExpr>(base->IgnoreParenImpCasts())) continue;
                                // split in the middle
                                std::vector<const CXXOperatorCallExpr *> ch;
                                const Expr *q = o;
                                while (auto w = dyn_cast<CXXOperatorCallExpr>(q->IgnoreParenImpCasts())) { if (w->getOperator() != OO_LessLess || w->getNumArgs() != 2) break; ch.push_back(w); q = w->getArg(0); }
                                auto m = ch[ch.size() / 2];
                                if (bad(m->getSourceRange())) continue;
                                unsigned e1 = endOff(m->getEndLoc());
                                put(e->getBeginLoc(), stmtEnd(e), txt(off(e->getBeginLoc()), e1) + "; " + txt(base) + txt(e1, stmtEnd(e)));
                            }
        }
        return true;
    }
    int k0 = 0;
    const Expr *ostr(const Stmt *s) {
        auto e = dyn_cast<Expr>(s);
        if (!e) return nullptr;
        e = e->IgnoreImplicit();
        bool any = false;
        while (auto w = dyn_cast<CXXOperatorCallExpr>(e->IgnoreParenImpCasts())) { if (w->getOperator() != OO_LessLess || w->getNumArgs() != 2) break; any = true; e = w->getArg(0); }
        return any && isa<DeclRefExpr>(e->IgnoreParenImpCasts()) ? e : nullptr;
    }
    bool VisitReturnStmt(ReturnStmt *s) {
        if (bad(s->getSourceRange()) || !s->getRetValue()) return true;
        if (gMode == "ternif" && parent<CompoundStmt>(s))
            if (auto c = dyn_cast<ConditionalOperator>(s->getRetValue()->IgnoreParenImpCasts()))
                put(s->getBeginLoc(), stmtEnd(s), "if (" + txt(c->getCond()) + ") { return " + txt(c->getTrueExpr()) + "; } else { return " + txt(c->getFalseExpr()) + "; }");
        if (gMode == "ret" && parent<CompoundStmt>(s) && F && !F->getReturnType()->isReferenceType() && !isa<InitListExpr>(s->getRetValue()->IgnoreImplicit()) && !F->getReturnType()->isDependentType()) {
            std::string v = txt(s->getRetValue());
            if (v.size() && v[0] != '{' && v != "nullptr" && v.compare(0, 6, "return") != 0 && v.find("unique") == std::string::npos) {
                std::string t = nm("r");
                PrintingPolicy pp(C.getLangOpts());
                put(s->getBeginLoc(), stmtEnd(s), (v == "true" || v == "false" || isa<StringLiteral>(s->getRetValue()->IgnoreImplicit()) ? std::string("const auto ") : std::string("auto ")) + t + " = " + v + "; return " + t + ";");
            }
        }
        return true;
    }
    bool VisitCXXForRangeStmt(CXXForRangeStmt *s) {
        if (bad(s->getSourceRange()) || s->getInit()) return true;
        auto v = s->getLoopVariable();
        const Expr *r = s->getRangeInit();
        QualType rt = r->getType().getNonReferenceType();
        std::string decl = txt(off(v->getBeginLoc()), endOff(v->getEndLoc()));
        // "const auto& x" up to the colon
        unsigned a = off(v->getBeginLoc()), colon = off(s->getColonLoc());
        decl = txt(a, colon);
        if (isa<InitListExpr>(r->IgnoreImplicit()) || txt(r)[0] == '{') return true;
        std::string R = nm("r"), I = nm("i");
        if (gMode == "rfor")
            put(s->getBeginLoc(), stmtEnd(s), "{ auto&& " + R + " = " + txt(r) + "; for (auto " + I + " = " + R + ".begin(); " + I + " != " + R + ".end(); ++" + I + ") { " + decl + " = *" + I + "; " + inner(s->getBody()) + " } }");
        if (gMode == "rforidx" && rt.getCanonicalType().getAsString().find("std::vector<") != std::string::npos && rt.getCanonicalType().getAsString().find("class std::vector<") < 8)
            put(s->getBeginLoc(), stmtEnd(s), "{ auto&& " + R + " = " + txt(r) + "; for (size_t " + I + " = 0; " + I + " < " + R + ".size(); " + I + "++) { " + decl + " = " + R + "[" + I + "]; " + inner(s->getBody()) + " } }");
        if (gMode == "lambda" && isa<CompoundStmt>(s->getBody()) && !jumps(s->getBody()))
            put(s->getBody()->getBeginLoc(), stmtEnd(s->getBody()), "{ [&]() " + stmt(s->getBody()) + "(); }");
        return true;
    }
    bool VisitForStmt(ForStmt *s) {
        if (bad(s->getSourceRange()) || s->getConditionVariable()) return true;
        if (gMode == "forwhile" && s->getCond() && !hasCont(s->getBody()))
            put(s->getBeginLoc(), stmtEnd(s), "{ " + (s->getInit() ? (isa<DeclStmt>(s->getInit()) ? txt(s->getInit()) : txt(s->getInit()) + ";") : std::string()) + " while (" + txt(s->getCond()) + ") { " + inner(s->getBody()) + " " + (s->getInc() ? txt(s->getInc()) + "; " : std::string()) + "} }");
        return true;
    }
    bool VisitWhileStmt(WhileStmt *s) {
        if (bad(s->getSourceRange()) || s->getConditionVariable()) return true;
        if (gMode == "whilefor")
            put(s->getBeginLoc(), stmtEnd(s), "for (; " + txt(s->getCond()) + ";) " + block(s->getBody()));
        if (gMode == "whiletrue")
            put(s->getBeginLoc(), stmtEnd(s), "while (true) { if (!(" + txt(s->getCond()) + ")) { break; } " + inner(s->getBody()) + " }");
        return true;
    }
    bool VisitCompoundAssignOperator(CompoundAssignOperator *b) {
        if (gMode != "cassign" || bad(b->getSourceRange()) || !pure(b->getLHS())) return true;
        std::string op = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str();
        put(b->getBeginLoc(), endOff(b->getEndLoc()), txt(b->getLHS()) + " = " + txt(b->getLHS()) + " " + op + " (" + txt(b->getRHS()) + ")");
        return true;
    }
    bool VisitBinaryOperator(BinaryOperator *b) {
        if (bad(b->getSourceRange())) return true;
        if (gMode == "flip" && (b->isEqualityOp() || b->isRelationalOp()) && pure(b->getLHS()) && pure(b->getRHS())) {
            static const std::pair<BinaryOperatorKind, const char *> m[] = {{BO_EQ, "=="}, {BO_NE, "!="}, {BO_LT, ">"}, {BO_GT, "<"}, {BO_LE, ">="}, {BO_GE, "<="}};
            for (auto &x : m) if (x.first == b->getOpcode()) put(b->getBeginLoc(), endOff(b->getEndLoc()), "(" + txt(b->getRHS()) + ") " + x.second + " (" + txt(b->getLHS()) + ")");
        }
        return true;
    }
    bool VisitSwitchStmt(SwitchStmt *s) {
        if (gMode != "swif" || bad(s->getSourceRange()) || s->getConditionVariable()) return true;
        auto body = dyn_cast<CompoundStmt>(s->getBody());
        if (!body) return true;
        struct G { std::vector<std::string> labels; bool def = false; std::string text; bool closed = false; };
        std::vector<G> gs;
        std::string t = nm("s");
        for (auto x : body->body()) {
            const Stmt *y = x;
            if (isa<SwitchCase>(y)) {
                if (!gs.empty() && !gs.back().closed) return true;   // falls through
                gs.push_back({});
                while (auto c = dyn_cast<SwitchCase>(y)) {
                    if (auto k = dyn_cast<CaseStmt>(c)) { if (k->getRHS()) return true; gs.back().labels.push_back(txt(k->getLHS())); } else gs.back().def = true;
                    y = c->getSubStmt();
                }
            }
            if (gs.empty()) return true;
            if (gs.back().closed) { if (isa<BreakStmt>(y)) continue; return true; }
            auto add = [&](const Stmt *z) -> bool {
                if (isa<BreakStmt>(z)) { gs.back().closed = true; return true; }
                if (jumps(z, false, false, false) && !onlyCont(z)) return false;
                gs.back().text += stmt(z) + " ";
                if (isa<ReturnStmt>(z) || isa<ContinueStmt>(z)) gs.back().closed = true;
                if (auto e = dyn_cast<Expr>(z)) if (isa<CXXThrowExpr>(e->IgnoreImplicit()) || (isa<ExprWithCleanups>(e) && isa<CXXThrowExpr>(cast<ExprWithCleanups>(e)->getSubExpr()))) gs.back().closed = true;
                return true;
            };
            if (auto cs = dyn_cast<CompoundStmt>(y)) {
                gs.back().text += "{ ";
                for (auto z : cs->body()) { if (gs.back().closed) continue; if (!add(z)) return true; }
                gs.back().text += "} ";
            } else if (!add(y)) return true;
        }
        std::string out = "{ const auto " + t + " = " + txt(s->getCond()) + "; ", def;
        bool first = true;
        for (size_t k = 0; k < gs.size(); k++) {
            auto &g = gs[k];
            if (!g.closed && k + 1 < gs.size()) return true;
            if (g.def) { if (!g.labels.empty()) {} def = g.text; continue; }
            std::string c;
            for (auto &l : g.labels) c += (c.empty() ? "" : " || ") + t + " == " + l;
            out += (first ? "if (" : " else if (") + c + ") { " + g.text + "}";
            first = false;
        }
        if (first) return true;
        if (!def.empty()) out += " else { " + def + "}";
        put(s->getBeginLoc(), stmtEnd(s), out + " }");
        return true;
    }
    bool onlyCont(const Stmt *s) {   // contains continue but no break leaving the switch
        return !brk(s);
    }
    bool brk(const Stmt *s) {
        if (!s || isa<LambdaExpr>(s)) return false;
        if (isa<BreakStmt>(s)) return true;
        if (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CXXForRangeStmt>(s) || isa<SwitchStmt>(s)) return false;
        for (auto c : s->children()) if (brk(c)) return true;
        return false;
    }
};
class Cons : public ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        V v(C);
        v.TraverseDecl(C.getTranslationUnitDecl());
        auto &S = v.sites;
        // innermost (even seeds) or outermost (odd seeds) first, then a pseudo-random subset
        std::stable_sort(S.begin(), S.end(), [](const Site &x, const Site &y) { return gSeed % 2 ? x.b - x.a > y.b - y.a : x.b - x.a < y.b - y.a; });
        std::vector<Site> pick;
        for (auto &s : S) {
            bool ok = true;
            for (auto &p : pick) if (!(s.b <= p.a || p.b <= s.a)) ok = false;
            if (s.text.empty()) ok = false;
            if (ok) pick.push_back(s);
        }
        std::sort(pick.begin(), pick.end(), [](const Site &x, const Site &y) { return x.a > y.a; });
        std::string b = v.buf();
        for (auto &p : pick) b.replace(p.a, p.b - p.a, p.text);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << b;
        llvm::outs() << pick.size() << "\n";
    }
};
class Act : public ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
    gMode = argv[1]; gSeed = atoi(argv[2]); std::string file = argv[3]; gOut = argv[4];
    std::vector<std::string> flags(argv + 6, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
