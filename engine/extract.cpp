// Extracts a compact, resolved program representation (per-function CFG over expression trees) from C translation units.
//
// One JSON object per line on the output file:
//   {"k":"fn", "name":..., "file":..., "line":..., "ext":bool, "noret":bool, "ret":type, "params":[[id,name,type]...],
//    "locals":[[id,name,type,isStatic]...], "entry":id, "exit":id, "blocks":[[id, elems, cond, succs, termKind], ...]}
//   {"k":"gv", "name":..., "file":..., "line":..., "type":..., "static":bool, "const":bool, "init":expr|null}
//   {"k":"en", "name":..., "vals":[[name,value],...]}
//   {"k":"rec","name":..., "fields":[[name,type],...]}
//   {"k":"decl","name":..., "noret":bool, "ret":type}
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::set<std::string> seenFn, seenRec, seenEnum, seenGv, seenDecl;
static std::string srcRoot;
static llvm::raw_ostream *out = nullptr;

static std::string relPath(const SourceManager &sm, SourceLocation loc)
{
    loc = sm.getExpansionLoc(loc);
    std::string f = sm.getFilename(loc).str();
    llvm::SmallString<256> real;
    if (!llvm::sys::fs::real_path(f, real))
        f = real.str().str();
    if (f.rfind(srcRoot, 0) == 0)
        f = f.substr(srcRoot.size());
    return f;
}

class Lower
{
public:
    ASTContext &ctx;
    const SourceManager &sm;
    std::map<const Stmt *, int> id;                                 // effect statement -> element id
    std::map<const VarDecl *, int> var;
    std::vector<const VarDecl *> varList;
    int next = 0;

    Lower(ASTContext &c) : ctx(c), sm(c.getSourceManager()) {}

    int varId(const VarDecl *v)
    {
        auto it = var.find(v);
        if (it != var.end())
            return it->second;
        int n = (int)varList.size();
        var[v] = n;
        varList.push_back(v);
        return n;
    }

    static const Expr *strip(const Expr *e)
    {
        while (true)
        {
            if (auto *p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *c = dyn_cast<CastExpr>(e)) { e = c->getSubExpr(); continue; }
            if (auto *c = dyn_cast<ConstantExpr>(e)) { e = c->getSubExpr(); continue; }
            if (auto *g = dyn_cast<GenericSelectionExpr>(e)) { e = g->getResultExpr(); continue; }
            if (auto *c = dyn_cast<ChooseExpr>(e)) { e = c->getChosenSubExpr(); continue; }
            if (auto *u = dyn_cast<UnaryOperator>(e))
                if (u->getOpcode() == UO_Extension || u->getOpcode() == UO_Plus) { e = u->getSubExpr(); continue; }
            return e;
        }
    }

    std::set<const Stmt *> cfgElems;                                 // statements that are elements of the flow graph of the function

    static bool effect(const Stmt *s)
    {
        if (isa<CallExpr>(s) || isa<AbstractConditionalOperator>(s) || isa<StmtExpr>(s) || isa<VAArgExpr>(s) || isa<AtomicExpr>(s))
            return true;
        if (auto *b = dyn_cast<BinaryOperator>(s))
            return b->isAssignmentOp() || b->isLogicalOp();
        if (auto *u = dyn_cast<UnaryOperator>(s))
            return u->isIncrementDecrementOp();
        return false;
    }

    bool hasEffect(const Stmt *s)
    {
        if (s == nullptr) return false;
        if (isa<UnaryExprOrTypeTraitExpr>(s)) return false;
        if (effect(s)) return true;
        for (const Stmt *c : s->children())
            if (hasEffect(c)) return true;
        return false;
    }

    int idOf(const Stmt *s)
    {
        auto it = id.find(s);
        if (it != id.end())
            return it->second;
        int n = next++;
        id[s] = n;
        return n;
    }

    std::string recName(const RecordDecl *r)
    {
        if (!r->getName().empty())
            return r->getName().str();
        if (auto *t = r->getTypedefNameForAnonDecl())
            return t->getName().str();
        return "anon@" + relPath(sm, r->getLocation()) + ":" + std::to_string(sm.getExpansionLineNumber(r->getLocation()));
    }

    std::string typeName(QualType t)
    {
        PrintingPolicy p(ctx.getLangOpts());
        p.AnonymousTagLocations = false;
        return t.getAsString(p);
    }

    Value initList(const InitListExpr *il)
    {
        const InitListExpr *sem = il->isSemanticForm() ? il : (il->getSemanticForm() ? il->getSemanticForm() : il);
        QualType t = sem->getType();
        if (auto *rt = t->getAsStructureType())
        {
            Object fields;
            const RecordDecl *rd = rt->getDecl()->getDefinition();
            unsigned i = 0;
            for (auto *f : rd->fields())
            {
                if (f->isUnnamedBitfield()) continue;
                if (i < sem->getNumInits())
                {
                    const Expr *ie = sem->getInit(i);
                    if (ie && !isa<ImplicitValueInitExpr>(ie) && !isa<NoInitExpr>(ie))
                        fields[f->getNameAsString().empty() ? "anon" + std::to_string(i) : f->getNameAsString()] = expr(ie);
                }
                i++;
            }
            return Array{"S", recName(rd), std::move(fields)};
        }
        if (t->getAsUnionType())
        {
            Object fields;
            if (sem->getInitializedFieldInUnion() && sem->getNumInits() > 0)
                fields[sem->getInitializedFieldInUnion()->getNameAsString()] = expr(sem->getInit(0));
            return Array{"S", recName(t->getAsUnionType()->getDecl()), std::move(fields)};
        }
        Array a;
        if (t->isArrayType())
        {
            for (unsigned i = 0; i < sem->getNumInits(); i++)
            {
                const Expr *ie = sem->getInit(i);
                if (ie == nullptr || isa<ImplicitValueInitExpr>(ie)) a.push_back(nullptr);
                else a.push_back(expr(ie));
            }
            return Array{"A", std::move(a)};
        }
        if (sem->getNumInits() == 1)
            return expr(sem->getInit(0));
        return Array{"i", 0};
    }

    Value fnKey(const FunctionDecl *f)
    {
        return f->getNameAsString();
    }

    // In a short circuit chain the block ends by testing the operand evaluated last
    const Expr *lastOf(const Expr *e)
    {
        while (true)
        {
            const Expr *s = e->IgnoreParenImpCasts();
            auto *b = dyn_cast<BinaryOperator>(s);
            if (!b || !b->isLogicalOp()) return e;
            e = b->getRHS();
        }
    }

    Value expr(const Expr *e)
    {
        const Expr *orig = e;
        e = strip(e);

        // The inner operators of a && b && c are control flow only
        if (auto *lb = dyn_cast<BinaryOperator>(e))
            if (lb->isLogicalOp() && !cfgElems.empty() && !cfgElems.count(e))
                return Array{"l", lb->getOpcode() == BO_LAnd ? "&&" : "||", expr(lb->getLHS()), expr(lb->getRHS())};

        if (effect(e))
            return Array{"c", idOf(e)};

        if (auto *d = dyn_cast<DeclRefExpr>(e))
        {
            const ValueDecl *vd = d->getDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(vd))
                return Array{"e", ec->getNameAsString(), ec->getInitVal().getExtValue()};
            if (auto *fd = dyn_cast<FunctionDecl>(vd))
                return Array{"f", fnKey(fd)};
            if (auto *v = dyn_cast<VarDecl>(vd))
            {
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal() && !v->hasExternalStorage())
                    return Array{"v", varId(v)};
                if (v->isStaticLocal())
                    globalVar(v);
                return Array{"g", v->getNameAsString()};
            }
            return Array{"o", vd->getNameAsString()};
        }

        if (auto *s = dyn_cast<StringLiteral>(e))
        {
            std::string str;
            if (s->getCharByteWidth() == 1)
                str = s->getBytes().str();
            return Array{"s", llvm::json::isUTF8(str) ? str : llvm::json::fixUTF8(str)};
        }
        if (auto *p = dyn_cast<PredefinedExpr>(e))
            return Array{"s", p->getFunctionName() ? p->getFunctionName()->getBytes().str() : ""};

        // Null pointer and integer constant folding
        if (orig->isNullPointerConstant(ctx, Expr::NPC_ValueDependentIsNotNull) && orig->getType()->isPointerType())
            return Array{"i", 0};

        if (!isa<InitListExpr>(e) && !isa<CompoundLiteralExpr>(e) && e->getType()->isIntegralOrEnumerationType())
        {
            Expr::EvalResult r;
            if (!hasEffect(e) && e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
            {
                llvm::APSInt v = r.Val.getInt();
                if (v.isUnsigned() && v.getActiveBits() > 63)
                    return Array{"i", llvm::toString(v, 10)};
                return Array{"i", v.getExtValue()};
            }
        }

        if (auto *f = dyn_cast<FloatingLiteral>(e))
            return Array{"i", f->getValueAsApproximateDouble()};
        if (auto *m = dyn_cast<MemberExpr>(e))
        {
            Value base = expr(m->getBase());
            if (m->isArrow())
                base = Array{"d", std::move(base)};
            std::string rec;
            if (auto *fd = dyn_cast<FieldDecl>(m->getMemberDecl()))
                rec = recName(fd->getParent());
            return Array{"m", std::move(base), m->getMemberDecl()->getNameAsString(), rec};
        }
        if (auto *u = dyn_cast<UnaryOperator>(e))
        {
            if (u->getOpcode() == UO_Deref) return Array{"d", expr(u->getSubExpr())};
            if (u->getOpcode() == UO_AddrOf)
            {
                const Expr *se = strip(u->getSubExpr());
                if (auto *u2 = dyn_cast<UnaryOperator>(se))
                    if (u2->getOpcode() == UO_Deref) return expr(u2->getSubExpr());
                return Array{"a", expr(u->getSubExpr())};
            }
            return Array{"u", UnaryOperator::getOpcodeStr(u->getOpcode()).str(), expr(u->getSubExpr())};
        }
        if (auto *b = dyn_cast<BinaryOperator>(e))
        {
            if (b->getOpcode() == BO_Comma)
                return expr(b->getRHS());
            return Array{"b", BinaryOperator::getOpcodeStr(b->getOpcode()).str(), expr(b->getLHS()), expr(b->getRHS())};
        }
        if (auto *a = dyn_cast<ArraySubscriptExpr>(e))
            return Array{"x", expr(a->getBase()), expr(a->getIdx())};
        if (auto *c = dyn_cast<CompoundLiteralExpr>(e))
            return expr(c->getInitializer());
        if (auto *il = dyn_cast<InitListExpr>(e))
            return initList(il);
        if (isa<ImplicitValueInitExpr>(e))
            return Array{"i", 0};
        if (auto *o = dyn_cast<OpaqueValueExpr>(e))
            if (o->getSourceExpr()) return expr(o->getSourceExpr());
        if (auto *sz = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            (void)sz;
            return Array{"o", "sizeof"};
        }
        return Array{"o", e->getStmtClassName()};
    }

    int line(const Stmt *s) { return (int)sm.getExpansionLineNumber(s->getBeginLoc()); }

    std::string macroOf(const Stmt *s)
    {
        SourceLocation l = s->getBeginLoc();
        if (!l.isMacroID()) return "";
        // outermost macro name
        SourceLocation cur = l;
        std::string name;
        while (cur.isMacroID())
        {
            name = Lexer::getImmediateMacroName(cur, sm, ctx.getLangOpts()).str();
            cur = sm.getImmediateMacroCallerLoc(cur);
        }
        return name;
    }

    void elem(const Stmt *s, Array &elems)
    {
        if (auto *e = dyn_cast<Expr>(s))
        {
            if (strip(e) != e || !effect(e)) return;
        }
        if (auto *c = dyn_cast<CallExpr>(s))
        {
            Array args;
            for (auto *a : c->arguments()) args.push_back(expr(a));
            Value callee = nullptr;
            if (auto *fd = c->getDirectCallee())
            {
                callee = Array{"f", fnKey(fd)};
                std::string n = fd->getNameAsString();
                if (!n.empty() && seenDecl.insert(n).second)
                {
                    Array ps;
                    for (auto *p : fd->parameters()) ps.push_back(typeName(p->getType()));
                    *out << Value(Object{
                        {"k", "decl"}, {"name", n}, {"noret", fd->isNoReturn()}, {"ret", typeName(fd->getReturnType())},
                        {"params", std::move(ps)}, {"variadic", fd->isVariadic()}}) << "\n";
                }
            }
            else
                callee = expr(c->getCallee());
            elems.push_back(Array{idOf(s), "call", std::move(callee), std::move(args), line(s)});
            return;
        }
        if (auto *b = dyn_cast<BinaryOperator>(s))
        {
            if (b->isLogicalOp())
            {
                elems.push_back(Array{idOf(s), "log", b->getOpcode() == BO_LAnd ? "&&" : "||", expr(b->getLHS()), expr(b->getRHS()), line(s)});
                return;
            }
            if (auto *ca = dyn_cast<CompoundAssignOperator>(b))
            {
                std::string op = BinaryOperator::getOpcodeStr(ca->getOpcode()).str();
                op.pop_back();
                elems.push_back(Array{idOf(s), "opas", op, expr(b->getLHS()), expr(b->getRHS()), line(s)});
                return;
            }
            elems.push_back(Array{idOf(s), "as", expr(b->getLHS()), expr(b->getRHS()), line(s)});
            return;
        }
        if (auto *u = dyn_cast<UnaryOperator>(s))
        {
            elems.push_back(Array{idOf(s), "inc", UnaryOperator::getOpcodeStr(u->getOpcode()).str(), u->isPostfix(), expr(u->getSubExpr()), line(s)});
            return;
        }
        if (auto *c = dyn_cast<ConditionalOperator>(s))
        {
            elems.push_back(Array{idOf(s), "cond", expr(c->getCond()), expr(c->getTrueExpr()), expr(c->getFalseExpr()), line(s)});
            return;
        }
        if (auto *c = dyn_cast<BinaryConditionalOperator>(s))
        {
            elems.push_back(Array{idOf(s), "cond", expr(c->getCommon()), expr(c->getCommon()), expr(c->getFalseExpr()), line(s)});
            return;
        }
        if (auto *d = dyn_cast<DeclStmt>(s))
        {
            for (auto *dd : d->decls())
                if (auto *v = dyn_cast<VarDecl>(dd))
                {
                    if (v->isStaticLocal()) { globalVar(v); continue; }
                    if (!v->isLocalVarDecl()) continue;
                    Value init = nullptr;
                    if (v->getInit()) init = expr(v->getInit());
                    elems.push_back(Array{idOf(s), "decl", varId(v), std::move(init), line(s)});
                }
            return;
        }
        if (auto *r = dyn_cast<ReturnStmt>(s))
        {
            Value v = nullptr;
            if (r->getRetValue()) v = expr(r->getRetValue());
            elems.push_back(Array{idOf(s), "ret", std::move(v), line(s)});
            return;
        }
        if (auto *se = dyn_cast<StmtExpr>(s))
        {
            Value v = nullptr;
            if (auto *cs = se->getSubStmt())
                if (!cs->body_empty())
                    if (auto *le = dyn_cast<Expr>(cs->body_back())) v = expr(le);
            elems.push_back(Array{idOf(s), "val", std::move(v), line(s)});
            return;
        }
        if (isa<VAArgExpr>(s))
        {
            elems.push_back(Array{idOf(s), "val", Array{"o", "va_arg"}, line(s)});
            return;
        }
    }

    void globalVar(const VarDecl *v)
    {
        std::string n = v->getNameAsString();
        const VarDecl *def = v;
        const Expr *init = v->getAnyInitializer(def);
        if (init == nullptr) def = v;
        if (!seenGv.insert(n + (init ? "" : "#noinit")).second) return;
        std::string f = relPath(sm, def->getLocation());
        if (f.empty() || f[0] == '/') return;
        Value iv = nullptr;
        if (init)
        {
            Lower l(ctx);
            iv = l.expr(init);
        }
        *out << Value(Object{
            {"k", "gv"}, {"name", n}, {"file", f}, {"line", (int)sm.getExpansionLineNumber(def->getLocation())},
            {"type", typeName(def->getType())}, {"local", v->isStaticLocal()}, {"const", def->getType().isConstQualified()},
            {"init", std::move(iv)}}) << "\n";
    }

    void function(const FunctionDecl *f)
    {
        CFG::BuildOptions opt;
        opt.setAllAlwaysAdd();
        opt.PruneTriviallyFalseEdges = true;
        opt.AddImplicitDtors = false;
        opt.AddInitializers = false;
        opt.AddEHEdges = false;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &ctx, opt);
        if (!cfg)
        {
            llvm::errs() << "NOCFG " << f->getNameAsString() << "\n";
            return;
        }
        cfgElems.clear();
        for (auto *b : *cfg)
            for (auto &e : *b)
                if (auto cs = e.getAs<CFGStmt>())
                    cfgElems.insert(cs->getStmt());
        Array params;
        for (auto *p : f->parameters())
            params.push_back(Array{varId(p), p->getNameAsString(), typeName(p->getType())});
        Array blocks;
        for (auto it = cfg->rbegin(); it != cfg->rend(); ++it)
        {
            const CFGBlock *b = *it;
            Array elems;
            for (auto &e : *b)
                if (auto cs = e.getAs<CFGStmt>())
                    elem(cs->getStmt(), elems);
            Value cond = nullptr;
            std::string kind;
            if (const Stmt *t = b->getTerminatorStmt())
            {
                kind = t->getStmtClassName();
                if (auto *bo = dyn_cast<BinaryOperator>(t))
                {
                    if (bo->isLogicalOp()) { cond = expr(lastOf(bo->getLHS())); kind = bo->getOpcode() == BO_LAnd ? "&&" : "||"; }
                }
                else if (auto *sw = dyn_cast<SwitchStmt>(t))
                    cond = expr(sw->getCond());
                else if (b->succ_size() >= 2)
                {
                    const Expr *c = b->getLastCondition();
                    if (!c) c = dyn_cast_or_null<Expr>(b->getTerminatorCondition());
                    // The whole of a && b where both ways join before the test (do ... while), else the operand evaluated last
                    if (c)
                    {
                        auto *lb = dyn_cast<BinaryOperator>(c->IgnoreParenImpCasts());
                        bool joined = lb && lb->isLogicalOp() && !b->empty() && b->back().getAs<CFGStmt>() &&
                            b->back().castAs<CFGStmt>().getStmt() == lb;
                        cond = joined ? expr(c) : expr(lastOf(c));
                    }
                }
            }
            Array succs;
            bool isSwitch = kind == "SwitchStmt";
            for (auto si = b->succ_begin(); si != b->succ_end(); ++si)
            {
                const CFGBlock *sb = si->getReachableBlock();
                if (!sb)
                {
                    if (!isSwitch) succs.push_back(nullptr);
                    continue;
                }
                if (isSwitch)
                {
                    const Stmt *lab = sb->getLabel();
                    Array vals;
                    bool dflt = true;
                    // A run of case labels falling into one another are separate blocks, so only this label matters
                    if (lab)
                        if (auto *cs = dyn_cast<CaseStmt>(lab)) { vals.push_back(expr(cs->getLHS())); dflt = false; }
                    if (dflt) succs.push_back(Array{(int)sb->getBlockID(), "default"});
                    else succs.push_back(Array{(int)sb->getBlockID(), std::move(vals)});
                }
                else
                    succs.push_back((int)sb->getBlockID());
            }
            blocks.push_back(Array{(int)b->getBlockID(), std::move(elems), std::move(cond), std::move(succs), kind, b->hasNoReturnElement(),
                b->getTerminatorStmt() ? line(b->getTerminatorStmt()) : 0});
        }
        Array locals;
        for (size_t i = 0; i < varList.size(); i++)
            locals.push_back(Array{(int)i, varList[i]->getNameAsString(), typeName(varList[i]->getType()), isa<ParmVarDecl>(varList[i])});
        *out << Value(Object{
            {"k", "fn"}, {"name", f->getNameAsString()}, {"file", relPath(sm, f->getLocation())},
            {"line", (int)sm.getExpansionLineNumber(f->getLocation())},
            {"end", (int)sm.getExpansionLineNumber(f->getEndLoc())},
            {"ext", f->isExternallyVisible()}, {"noret", f->isNoReturn()}, {"ret", typeName(f->getReturnType())},
            {"params", std::move(params)}, {"locals", std::move(locals)}, {"entry", (int)cfg->getEntry().getBlockID()},
            {"exit", (int)cfg->getExit().getBlockID()}, {"blocks", std::move(blocks)}}) << "\n";
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    ASTContext &ctx;
    explicit Visitor(ASTContext &c) : ctx(c) {}

    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (!f->doesThisDeclarationHaveABody()) return true;
        std::string file = relPath(ctx.getSourceManager(), f->getLocation());
        if (file.empty() || file[0] == '/') return true;
        if (file.find(".vendor.") != std::string::npos) return true;
        if (!seenFn.insert(f->getNameAsString() + "|" + file).second) return true;
        Lower l(ctx);
        l.function(f);
        return true;
    }

    bool VisitVarDecl(VarDecl *v)
    {
        if (!v->hasGlobalStorage() || v->isStaticLocal()) return true;
        std::string file = relPath(ctx.getSourceManager(), v->getLocation());
        if (file.empty() || file[0] == '/') return true;
        Lower l(ctx);
        l.globalVar(v);
        return true;
    }

    bool VisitEnumDecl(EnumDecl *e)
    {
        if (!e->isThisDeclarationADefinition()) return true;
        std::string file = relPath(ctx.getSourceManager(), e->getLocation());
        if (file.empty() || file[0] == '/') return true;
        std::string n = e->getNameAsString();
        if (n.empty() && e->getTypedefNameForAnonDecl()) n = e->getTypedefNameForAnonDecl()->getNameAsString();
        if (n.empty()) n = file + ":" + std::to_string(ctx.getSourceManager().getExpansionLineNumber(e->getLocation()));
        if (!seenEnum.insert(n).second) return true;
        Array vals;
        for (auto *c : e->enumerators()) vals.push_back(Array{c->getNameAsString(), c->getInitVal().getExtValue()});
        *out << Value(Object{{"k", "en"}, {"name", n}, {"vals", std::move(vals)}}) << "\n";
        return true;
    }

    bool VisitRecordDecl(RecordDecl *r)
    {
        if (!r->isThisDeclarationADefinition()) return true;
        std::string file = relPath(ctx.getSourceManager(), r->getLocation());
        if (file.empty() || file[0] == '/') return true;
        Lower l(ctx);
        std::string n = l.recName(r);
        if (!seenRec.insert(n).second) return true;
        Array fs;
        for (auto *f : r->fields()) fs.push_back(Array{f->getNameAsString(), l.typeName(f->getType())});
        *out << Value(Object{{"k", "rec"}, {"name", n}, {"file", file}, {"fields", std::move(fs)}}) << "\n";
        return true;
    }
};

// Integer constants that are object-like macros (a number, or a string id with its number)
static void macros(Preprocessor &pp, const SourceManager &sm)
{
    static std::set<std::string> seen;
    for (auto &m : pp.macros())
    {
        const MacroInfo *mi = pp.getMacroInfo(m.first);
        if (!mi || !mi->isObjectLike() || mi->tokens_empty()) continue;
        std::string file = relPath(sm, mi->getDefinitionLoc());
        if (file.empty() || file[0] == '/') continue;
        const Token &t0 = mi->tokens()[0];
        const Token *num = nullptr;
        if (mi->getNumTokens() == 1 && t0.is(tok::numeric_constant)) num = &t0;
        else if (t0.is(tok::identifier) && t0.getIdentifierInfo()->getName().starts_with("STRID"))
            for (auto &t : mi->tokens())
                if (t.is(tok::numeric_constant)) num = &t;
        if (!num) continue;
        std::string txt = pp.getSpelling(*num);
        char *e = nullptr;
        long long val = strtoll(txt.c_str(), &e, 0);
        while (*e == 'U' || *e == 'u' || *e == 'L' || *e == 'l') e++;
        if (*e) continue;
        std::string n = m.first->getName().str();
        if (seen.insert(n).second) *out << Value(Object{{"k", "mac"}, {"name", n}, {"val", (int64_t)val}}) << "\n";
    }
}

class Consumer : public ASTConsumer
{
    CompilerInstance &ci;
public:
    Consumer(CompilerInstance &ci) : ci(ci) {}
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        Visitor v(ctx);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        macros(ci.getPreprocessor(), ctx.getSourceManager());
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override { return std::make_unique<Consumer>(ci); }
};

int main(int argc, char **argv)
{
    // extract OUT SRCROOT COMPDB_DIR FILE...
    if (argc < 5) return 2;
    srcRoot = argv[2];
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[1], ec);
    if (ec) return 2;
    out = &os;
    std::string err;
    auto db = tooling::CompilationDatabase::loadFromDirectory(argv[3], err);
    if (!db) { llvm::errs() << err << "\n"; return 2; }
    std::vector<std::string> files(argv + 4, argv + argc);
    tooling::ClangTool tool(*db, files);
    std::vector<std::string> more{"-w", "-Wno-error", "-ferror-limit=0"};
    if (const char *dir = getenv("VP_IDIRAFTER"))                   // headers only gcc ships (backtrace.h)
    {
        more.push_back("-idirafter");
        more.push_back(dir);
    }
    tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster(more, tooling::ArgumentInsertPosition::END));
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    os.flush();
    return rc;
}
