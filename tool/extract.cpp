// Dumps the resolved program (every function with a body below the include root, all template instantiations and
// lambda bodies) as JSON. The analyses in /verif/sa work on this dump.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string g_root;   // include root whose functions are dumped
static std::string g_out;

namespace
{

struct Dumper
{
    ASTContext & ctx;
    SourceManager & sm;
    PrintingPolicy pp;
    std::map<void const *, int64_t> ids;
    std::vector<FunctionDecl const *> queue;
    std::set<FunctionDecl const *> queued;
    std::map<int64_t, Object> globals;
    std::map<std::string, Object> classes;
    std::map<std::string, Object> enums;
    std::map<std::string, std::vector<std::string>> bases;

    explicit Dumper(ASTContext & c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts())
    {
        pp.SuppressTagKeyword = true;
        pp.SuppressUnwrittenScope = true;
        pp.SuppressInlineNamespace = true;
        pp.Bool = true;
        pp.SuppressDefaultTemplateArgs = true;
        pp.PrintCanonicalTypes = true;
    }

    int64_t id(Decl const * d)
    {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end())
            return it->second;
        int64_t v = ids.size() + 1;
        ids[d] = v;
        return v;
    }

    bool inRoot(SourceLocation l)
    {
        if (l.isInvalid())
            return false;
        auto f = sm.getFilename(sm.getExpansionLoc(l));
        return f.starts_with(g_root) || f.ends_with("/driver.cpp");
    }

    std::string loc(SourceLocation l)
    {
        if (l.isInvalid())
            return "";
        l = sm.getExpansionLoc(l);
        std::string f = sm.getFilename(l).str();
        if (f.rfind(g_root, 0) == 0)
            f = f.substr(g_root.size());
        return f + ":" + std::to_string(sm.getExpansionLineNumber(l));
    }

    std::string type(QualType t)
    {
        if (t.isNull())
            return "";
        std::string s = t.getCanonicalType().getAsString(pp);
        return s;
    }

    std::string qname(NamedDecl const * d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy q = pp;
        d->printQualifiedName(os, q);
        return os.str();
    }

    // Qualified name without template arguments.
    std::string plainName(NamedDecl const * d)
    {
        std::string n = d->getDeclName().getAsString();
        if (auto * c = dyn_cast<CXXConstructorDecl>(d))
            n = c->getParent()->getNameAsString();
        else if (isa<CXXDestructorDecl>(d))
            n = "~";
        if (auto * conv = dyn_cast<CXXConversionDecl>(d))
            n = "operator " + type(conv->getConversionType());
        std::string scope;
        for (DeclContext const * dc = d->getDeclContext(); dc; dc = dc->getParent())
        {
            if (auto * ns = dyn_cast<NamespaceDecl>(dc))
            {
                if (ns->isInline() || ns->isAnonymousNamespace())
                    continue;
                scope = ns->getNameAsString() + "::" + scope;
            }
            else if (auto * r = dyn_cast<CXXRecordDecl>(dc))
            {
                scope = (r->isLambda() ? std::string("<lambda>") : r->getNameAsString()) + "::" + scope;
            }
            else if (auto * e = dyn_cast<EnumDecl>(dc))
            {
                if (!e->isScoped())
                    continue;
                scope = e->getNameAsString() + "::" + scope;
            }
        }
        return scope + n;
    }

    std::string tmplArgs(FunctionDecl const * f)
    {
        std::string s;
        if (auto * a = f->getTemplateSpecializationArgs())
        {
            llvm::raw_string_ostream os(s);
            bool first = true;
            for (auto const & x : a->asArray())
            {
                if (!first)
                    os << ", ";
                first = false;
                x.print(pp, os, true);
            }
        }
        return s;
    }

    void addClass(CXXRecordDecl const * r)
    {
        if (!r || r->isDependentContext())
            return;
        r = r->getDefinition();
        if (!r)
            return;
        std::string n = type(ctx.getRecordType(r));
        if (!bases.count(n))
        {
            auto & b = bases[n];
            for (auto const & x : r->bases())
                if (auto * br = x.getType()->getAsCXXRecordDecl())
                {
                    b.push_back(type(x.getType()));
                    addClass(br);
                }
        }
        if (classes.count(n) || !inRoot(r->getLocation()) || r->isLambda())
            return;
        classes[n] = Object{};
        Array fields, methods, bs;
        for (auto const & x : r->bases())
            bs.push_back(type(x.getType()));
        for (auto * f : r->fields())
        {
            Object o{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"acc", int(f->getAccess())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                o["init"] = expr(f->getInClassInitializer());
            fields.push_back(std::move(o));
        }
        for (auto * d : r->decls())
        {
            FunctionDecl * fd = nullptr;
            std::vector<FunctionDecl *> insts;
            if (auto * m = dyn_cast<CXXMethodDecl>(d))
                insts.push_back(m);
            else if (auto * ft = dyn_cast<FunctionTemplateDecl>(d))
                for (auto * s : ft->specializations())
                    insts.push_back(s);
            (void)fd;
            for (auto * m : insts)
            {
                auto * cm = dyn_cast<CXXMethodDecl>(m);
                Object o{{"n", m->getNameAsString()}, {"id", id(m)}, {"acc", int(m->getAccess())},
                         {"loc", loc(m->getLocation())}, {"ta", tmplArgs(m)}};
                if (cm)
                {
                    o["const"] = cm->isConst();
                    o["static"] = cm->isStatic();
                    o["virtual"] = cm->isVirtual();
                    o["implicit"] = cm->isImplicit();
                    if (isa<CXXConstructorDecl>(cm))
                        o["kind"] = "ctor";
                    if (isa<CXXDestructorDecl>(cm))
                        o["kind"] = "dtor";
                    if (cm->isCopyAssignmentOperator())
                        o["kind"] = "copy=";
                    if (cm->isMoveAssignmentOperator())
                        o["kind"] = "move=";
                    if (auto * c = dyn_cast<CXXConstructorDecl>(cm))
                    {
                        if (c->isCopyConstructor())
                            o["kind"] = "copy";
                        if (c->isMoveConstructor())
                            o["kind"] = "move";
                    }
                    Array ov;
                    for (auto * x : cm->overridden_methods())
                        ov.push_back(id(x));
                    if (!ov.empty())
                        o["overrides"] = std::move(ov);
                }
                o["deleted"] = m->isDeleted();
                o["defaulted"] = m->isDefaulted();
                methods.push_back(std::move(o));
                need(m);
            }
        }
        Object o{{"n", n}, {"pn", plainName(r)}, {"loc", loc(r->getLocation())}};
        o["bases"] = std::move(bs);
        o["fields"] = std::move(fields);
        o["methods"] = std::move(methods);
        if (auto * s = dyn_cast<ClassTemplateSpecializationDecl>(r))
            o["template"] = true;
        classes[n] = std::move(o);
    }

    void need(FunctionDecl const * f)
    {
        if (!f)
            return;
        FunctionDecl const * def = nullptr;
        if (!f->isDefined(def) || !def)
            return;
        if (def->isDependentContext() || !inRoot(def->getLocation()))
            return;
        if (!def->hasBody() && !isa<CXXConstructorDecl>(def))
            return;
        if (queued.insert(def).second)
            queue.push_back(def);
    }

    Object fref(FunctionDecl const * f)
    {
        need(f);
        Object o{{"id", id(f)}, {"n", plainName(f)}};
        if (auto ta = tmplArgs(f); !ta.empty())
            o["ta"] = ta;
        Array pt;
        for (auto * p : f->parameters())
            pt.push_back(type(p->getType()));
        o["p"] = std::move(pt);
        if (auto * m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->isConst())
                o["const"] = true;
            if (m->isVirtual())
                o["virtual"] = true;
            if (m->isStatic())
                o["static"] = true;
        }
        auto * pt2 = f->getType()->getAs<FunctionProtoType>();
        if (pt2 && !isUnresolvedExceptionSpec(pt2->getExceptionSpecType()) && pt2->isNothrow())
            o["noexcept"] = true;
        return o;
    }

    static Expr const * strip(Expr const * e)
    {
        while (e)
        {
            if (auto * x = dyn_cast<ParenExpr>(e))
                e = x->getSubExpr();
            else if (auto * x = dyn_cast<FullExpr>(e))
                e = x->getSubExpr();
            else if (auto * x = dyn_cast<MaterializeTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto * x = dyn_cast<CXXBindTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = x->getReplacement();
            else if (auto * x = dyn_cast<CXXStdInitializerListExpr>(e))
                e = x->getSubExpr();
            else
                break;
        }
        return e;
    }

    Value exprs(llvm::ArrayRef<Expr *> l)
    {
        Array a;
        for (auto * e : l)
            a.push_back(expr(e));
        return a;
    }

    template <typename R>
    Array args(R && r)
    {
        Array a;
        for (auto * e : r)
            a.push_back(expr(e));
        return a;
    }

    Value expr(Expr const * e)
    {
        e = strip(e);
        if (!e)
            return nullptr;
        Object o;
        o["l"] = loc(e->getExprLoc());
        if (auto * x = dyn_cast<ImplicitCastExpr>(e))
        {
            switch (x->getCastKind())
            {
            case CK_UserDefinedConversion:
            case CK_ConstructorConversion:
                return expr(x->getSubExpr());
            case CK_IntegralCast:
            case CK_FloatingCast:
            case CK_IntegralToFloating:
            case CK_FloatingToIntegral:
            case CK_IntegralToBoolean:
            case CK_PointerToBoolean:
            case CK_FloatingToBoolean:
                o["k"] = "cast";
                o["ck"] = x->getCastKindName();
                o["t"] = type(x->getType());
                o["ft"] = type(x->getSubExpr()->getType());
                o["e"] = expr(x->getSubExpr());
                return o;
            case CK_LValueToRValue:
                o["k"] = "rv";
                o["e"] = expr(x->getSubExpr());
                return o;
            default:
                return expr(x->getSubExpr());
            }
        }
        if (auto * x = dyn_cast<ExplicitCastExpr>(e))
        {
            auto ck = x->getCastKind();
            if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion
                || ck == CK_LValueToRValue)
                return expr(x->getSubExpr());
            o["k"] = "cast";
            o["ck"] = x->getCastKindName();
            o["t"] = type(x->getType());
            o["ft"] = type(x->getSubExpr()->getType());
            o["e"] = expr(x->getSubExpr());
            o["explicit"] = true;
            return o;
        }
        if (auto * x = dyn_cast<CXXDefaultArgExpr>(e))
        {
            Value v = expr(x->getExpr());
            if (auto * ob = v.getAsObject())
                (*ob)["dflt"] = true;
            return v;
        }
        if (auto * x = dyn_cast<CXXDefaultInitExpr>(e))
            return expr(x->getExpr());
        if (auto * x = dyn_cast<IntegerLiteral>(e))
        {
            o["k"] = "int";
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = std::string(s.str());
            return o;
        }
        if (auto * x = dyn_cast<CharacterLiteral>(e))
        {
            o["k"] = "chr";
            o["v"] = int64_t(x->getValue());
            return o;
        }
        if (auto * x = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            o["k"] = "bool";
            o["v"] = x->getValue();
            return o;
        }
        if (auto * x = dyn_cast<clang::StringLiteral>(e))
        {
            o["k"] = "str";
            std::string b = x->getBytes().str();
            o["v"] = json::fixUTF8(b);
            return o;
        }
        if (auto * x = dyn_cast<FloatingLiteral>(e))
        {
            o["k"] = "flt";
            llvm::SmallString<32> s;
            x->getValue().toString(s);
            o["v"] = std::string(s.str());
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
        {
            o["k"] = "null";
            return o;
        }
        if (isa<CXXThisExpr>(e))
        {
            o["k"] = "this";
            o["t"] = type(e->getType());
            return o;
        }
        if (auto * x = dyn_cast<DeclRefExpr>(e))
            return declref(x->getDecl(), std::move(o));
        if (auto * x = dyn_cast<MemberExpr>(e))
        {
            auto * d = x->getMemberDecl();
            if (auto * vd = dyn_cast<VarDecl>(d))
                return declref(vd, std::move(o));
            if (auto * en = dyn_cast<EnumConstantDecl>(d))
                return declref(en, std::move(o));
            o["k"] = "mem";
            o["n"] = d->getNameAsString();
            if (auto * f = dyn_cast<FieldDecl>(d))
            {
                o["cls"] = plainName(f->getParent());
                o["t"] = type(f->getType());
            }
            if (auto * f = dyn_cast<FunctionDecl>(d))
                o["f"] = fref(f);
            o["arrow"] = x->isArrow();
            o["b"] = expr(x->getBase());
            return o;
        }
        if (auto * x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto * f = x->getDirectCallee())
            {
                o["f"] = fref(f);
                o["m"] = isa<CXXMethodDecl>(f);
            }
            else
                o["ce"] = expr(x->getCallee());
            o["a"] = args(x->arguments());
            o["t"] = type(x->getType());
            at(o, x);
            return o;
        }
        if (auto * x = dyn_cast<CXXMemberCallExpr>(e))
        {
            o["k"] = "call";
            if (auto * f = x->getDirectCallee())
            {
                o["f"] = fref(f);
                o["m"] = true;
            }
            else
                o["ce"] = expr(x->getCallee());
            Array a;
            if (auto * obj = x->getImplicitObjectArgument())
            {
                a.push_back(expr(obj));
                if (auto * me = dyn_cast<MemberExpr>(strip(x->getCallee())))
                {
                    o["arrow"] = me->isArrow();
                    if (me->hasQualifier())
                        o["qual"] = true;
                }
                o["ot"] = type(x->getObjectType());
            }
            for (auto * y : x->arguments())
                a.push_back(expr(y));
            o["a"] = std::move(a);
            o["t"] = type(x->getType());
            at(o, x);
            return o;
        }
        if (auto * x = dyn_cast<CallExpr>(e))
        {
            o["k"] = "call";
            if (auto * f = x->getDirectCallee())
                o["f"] = fref(f);
            else
                o["ce"] = expr(x->getCallee());
            o["a"] = args(x->arguments());
            o["t"] = type(x->getType());
            at(o, x);
            return o;
        }
        if (auto * x = dyn_cast<CXXConstructExpr>(e))
        {
            auto * c = x->getConstructor();
            o["k"] = "ctor";
            o["c"] = plainName(c->getParent());
            o["t"] = type(x->getType());
            addClass(c->getParent());
            if (c->isCopyConstructor())
                o["ck"] = "copy";
            else if (c->isMoveConstructor())
                o["ck"] = "move";
            else if (c->isDefaultConstructor() && x->getNumArgs() == 0)
                o["ck"] = "default";
            o["f"] = fref(c);
            if (x->isListInitialization())
                o["list"] = true;
            o["a"] = args(x->arguments());
            return o;
        }
        if (auto * x = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            o["k"] = "ctor";
            o["c"] = plainName(x->getConstructor()->getParent());
            o["t"] = type(x->getType());
            o["ck"] = "inherited";
            o["a"] = Array{};
            return o;
        }
        if (auto * x = dyn_cast<UnaryOperator>(e))
        {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix())
                o["post"] = true;
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto * x = dyn_cast<BinaryOperator>(e))
        {
            o["k"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = Array{expr(x->getLHS()), expr(x->getRHS())};
            o["t"] = type(x->getLHS()->getType());
            return o;
        }
        if (auto * x = dyn_cast<CXXRewrittenBinaryOperator>(e))
        {
            auto d = x->getDecomposedForm();
            o["k"] = "bin";
            o["op"] = BinaryOperator::getOpcodeStr(d.Opcode).str();
            o["a"] = Array{expr(d.LHS), expr(d.RHS)};
            o["t"] = type(d.LHS->getType());
            o["rew"] = true;
            o["inner"] = expr(d.InnerBinOp);
            return o;
        }
        if (auto * x = dyn_cast<AbstractConditionalOperator>(e))
        {
            o["k"] = "cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto * x = dyn_cast<ArraySubscriptExpr>(e))
        {
            o["k"] = "idx";
            o["a"] = Array{expr(x->getBase()), expr(x->getIdx())};
            return o;
        }
        if (auto * x = dyn_cast<InitListExpr>(e))
        {
            if (auto * s = x->getSemanticForm())
                x = s;
            if (x->isTransparent())
                return expr(x->getInit(0));
            o["k"] = "init";
            o["t"] = type(x->getType());
            Array a;
            for (unsigned i = 0; i < x->getNumInits(); ++i)
                a.push_back(expr(x->getInit(i)));
            o["a"] = std::move(a);
            if (auto * r = x->getType()->getAsCXXRecordDecl())
            {
                Array fn;
                for (auto * f : r->fields())
                    fn.push_back(f->getNameAsString());
                o["fn"] = std::move(fn);
                addClass(r);
            }
            return o;
        }
        if (auto * x = dyn_cast<ImplicitValueInitExpr>(e))
        {
            o["k"] = "zero";
            o["t"] = type(x->getType());
            return o;
        }
        if (auto * x = dyn_cast<CXXScalarValueInitExpr>(e))
        {
            o["k"] = "zero";
            o["t"] = type(x->getType());
            return o;
        }
        if (auto * x = dyn_cast<LambdaExpr>(e))
        {
            o["k"] = "lambda";
            auto * cls = x->getLambdaClass();
            o["id"] = id(cls);
            Array caps;
            auto init = x->capture_init_begin();
            for (auto const & c : x->captures())
            {
                Object co;
                if (c.capturesThis())
                {
                    co["this"] = true;
                    co["mode"] = c.getCaptureKind() == LCK_StarThis ? "copy" : "this";
                }
                else if (c.capturesVariable())
                {
                    auto * v = c.getCapturedVar();
                    co["n"] = v->getNameAsString();
                    co["id"] = id(v);
                    co["mode"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    if (auto * vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture())
                        co["ic"] = true;
                    co["t"] = type(v->getType());
                    co["e"] = expr(*init);
                }
                caps.push_back(std::move(co));
                ++init;
            }
            o["caps"] = std::move(caps);
            Array ops;
            auto * op = x->getCallOperator();
            if (auto * ft = op->getDescribedFunctionTemplate())
            {
                for (auto * s : ft->specializations())
                {
                    ops.push_back(fref(s));
                }
            }
            else
                ops.push_back(fref(op));
            o["ops"] = std::move(ops);
            return o;
        }
        if (auto * x = dyn_cast<CXXThrowExpr>(e))
        {
            o["k"] = "throw";
            if (x->getSubExpr())
            {
                o["e"] = expr(x->getSubExpr());
                o["t"] = type(x->getSubExpr()->getType());
                addClass(x->getSubExpr()->getType()->getAsCXXRecordDecl());
            }
            return o;
        }
        if (auto * x = dyn_cast<CXXNewExpr>(e))
        {
            o["k"] = "new";
            o["t"] = type(x->getAllocatedType());
            if (x->getInitializer())
                o["e"] = expr(x->getInitializer());
            return o;
        }
        if (auto * x = dyn_cast<CXXDeleteExpr>(e))
        {
            o["k"] = "delete";
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto * x = dyn_cast<CXXTypeidExpr>(e))
        {
            o["k"] = "typeid";
            return o;
        }
        if (auto * x = dyn_cast<StmtExpr>(e))
        {
            o["k"] = "stmtexpr";
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            Expr::EvalResult r;
            if (!x->isValueDependent() && x->EvaluateAsInt(r, ctx))
            {
                o["k"] = "int";
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                o["v"] = std::string(s.str());
                return o;
            }
        }
        if (!e->isValueDependent() && !e->isTypeDependent())
        {
            Expr::EvalResult r;
            if (e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx))
            {
                o["k"] = e->getType()->isBooleanType() ? "bool" : "int";
                if (e->getType()->isBooleanType())
                    o["v"] = r.Val.getInt() != 0;
                else
                {
                    llvm::SmallString<32> s;
                    r.Val.getInt().toString(s, 10);
                    o["v"] = std::string(s.str());
                }
                return o;
            }
        }
        o["k"] = "other";
        o["n"] = e->getStmtClassName();
        Array a;
        for (auto * c : e->children())
            if (auto * ce = dyn_cast_or_null<Expr>(c))
                a.push_back(expr(ce));
        o["a"] = std::move(a);
        return o;
    }

    void at(Object & o, CallExpr const * x)
    {
        Array a;
        for (auto * y : x->arguments())
            a.push_back(type(y->getType()));
        o["at"] = std::move(a);
    }

    Value declref(ValueDecl const * d, Object o)
    {
        if (auto * en = dyn_cast<EnumConstantDecl>(d))
        {
            o["k"] = "enum";
            o["n"] = plainName(en);
            llvm::SmallString<32> s;
            en->getInitVal().toString(s, 10);
            o["v"] = std::string(s.str());
            return o;
        }
        if (auto * f = dyn_cast<FunctionDecl>(d))
        {
            o["k"] = "fn";
            o["f"] = fref(f);
            return o;
        }
        o["k"] = "ref";
        o["n"] = d->getNameAsString();
        o["id"] = id(d);
        o["t"] = type(d->getType());
        if (auto * b = dyn_cast<BindingDecl>(d))
        {
            o["bind"] = true;
            return o;
        }
        if (auto * v = dyn_cast<VarDecl>(d))
        {
            if (!v->isLocalVarDeclOrParm() || v->isStaticLocal())
            {
                o["glob"] = true;
                o["qn"] = plainName(v);
                int64_t i = id(v);
                if (!globals.count(i))
                {
                    globals[i] = Object{{"n", plainName(v)}, {"t", type(v->getType())}, {"loc", loc(v->getLocation())}};
                    if (inRoot(v->getLocation()))
                    {
                        VarDecl const * def = nullptr;
                        if (auto * in = v->getAnyInitializer(def))
                            if (!in->isValueDependent())
                                globals[i]["init"] = expr(in);
                    }
                    globals[i]["const"] = v->getType().isConstQualified();
                }
            }
            if (v->getType()->isReferenceType())
                o["isref"] = true;
        }
        return o;
    }

    Value varDecl(VarDecl const * v)
    {
        Object o{{"n", v->getNameAsString()}, {"id", id(v)}, {"t", type(v->getType())}, {"l", loc(v->getLocation())}};
        if (auto * r = v->getType()->getAsCXXRecordDecl())
            addClass(r);
        if (v->getType()->isReferenceType())
            o["isref"] = true;
        if (v->isStaticLocal())
            o["static"] = true;
        if (v->getType().isConstQualified())
            o["const"] = true;
        if (v->getInit() && !v->getInit()->isValueDependent())
            o["init"] = expr(v->getInit());
        if (auto * dd = dyn_cast<DecompositionDecl>(v))
        {
            Array b;
            int i = 0;
            for (auto * bd : dd->bindings())
            {
                Object bo{{"n", bd->getNameAsString()}, {"id", id(bd)}, {"i", i++}};
                if (auto * be = bd->getBinding())
                {
                    auto * sb = strip(be);
                    if (auto * me = dyn_cast<MemberExpr>(sb))
                        bo["fld"] = me->getMemberDecl()->getNameAsString();
                }
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        return o;
    }

    Value stmt(Stmt const * s)
    {
        if (!s)
            return nullptr;
        Object o;
        o["l"] = loc(s->getBeginLoc());
        if (auto * x = dyn_cast<CompoundStmt>(s))
        {
            o["k"] = "block";
            Array a;
            for (auto * c : x->body())
                a.push_back(stmt(c));
            o["b"] = std::move(a);
            return o;
        }
        if (auto * x = dyn_cast<DeclStmt>(s))
        {
            o["k"] = "decl";
            Array a;
            for (auto * d : x->decls())
                if (auto * v = dyn_cast<VarDecl>(d))
                    a.push_back(varDecl(v));
            o["d"] = std::move(a);
            return o;
        }
        if (auto * x = dyn_cast<IfStmt>(s))
        {
            if (x->isConstexpr() && !x->getCond()->isValueDependent())
            {
                // resolved: only the selected branch
                if (auto b = x->getNondiscardedCase(ctx))
                {
                    if (*b)
                        return stmt(*b);
                    o["k"] = "null";
                    return o;
                }
            }
            o["k"] = "if";
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["a"] = stmt(x->getThen());
            o["b"] = stmt(x->getElse());
            return o;
        }
        if (auto * x = dyn_cast<ForStmt>(s))
        {
            o["k"] = "for";
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["inc"] = expr(x->getInc());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto * x = dyn_cast<WhileStmt>(s))
        {
            o["k"] = "while";
            if (x->getConditionVariable())
                o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto * x = dyn_cast<DoStmt>(s))
        {
            o["k"] = "do";
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto * x = dyn_cast<CXXForRangeStmt>(s))
        {
            o["k"] = "rfor";
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            o["r"] = expr(x->getRangeInit());
            o["rt"] = type(x->getRangeInit()->getType());
            o["v"] = varDecl(x->getLoopVariable());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto * x = dyn_cast<ReturnStmt>(s))
        {
            o["k"] = "ret";
            o["e"] = expr(x->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s))
        {
            o["k"] = "break";
            return o;
        }
        if (isa<ContinueStmt>(s))
        {
            o["k"] = "continue";
            return o;
        }
        if (isa<NullStmt>(s))
        {
            o["k"] = "null";
            return o;
        }
        if (auto * x = dyn_cast<CXXTryStmt>(s))
        {
            o["k"] = "try";
            o["b"] = stmt(x->getTryBlock());
            Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
            {
                auto * c = x->getHandler(i);
                Object ho;
                if (c->getExceptionDecl())
                {
                    ho["t"] = type(c->getCaughtType().getNonReferenceType().getUnqualifiedType());
                    addClass(c->getCaughtType().getNonReferenceType()->getAsCXXRecordDecl());
                    ho["v"] = varDecl(c->getExceptionDecl());
                }
                else
                    ho["t"] = nullptr;
                ho["b"] = stmt(c->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (auto * x = dyn_cast<SwitchStmt>(s))
        {
            o["k"] = "switch";
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto * x = dyn_cast<CaseStmt>(s))
        {
            o["k"] = "case";
            o["v"] = expr(x->getLHS());
            o["b"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto * x = dyn_cast<DefaultStmt>(s))
        {
            o["k"] = "default";
            o["b"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto * x = dyn_cast<LabelStmt>(s))
        {
            o["k"] = "label";
            o["b"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto * x = dyn_cast<AttributedStmt>(s))
            return stmt(x->getSubStmt());
        if (auto * x = dyn_cast<Expr>(s))
        {
            o["k"] = "expr";
            o["e"] = expr(x);
            return o;
        }
        o["k"] = "unknown";
        o["n"] = s->getStmtClassName();
        return o;
    }

    Object function(FunctionDecl const * f)
    {
        Object o{{"id", id(f)}, {"n", plainName(f)}, {"loc", loc(f->getLocation())}, {"ta", tmplArgs(f)},
                 {"ret", type(f->getReturnType())}};
        Array ps;
        for (auto * p : f->parameters())
        {
            Object po{{"n", p->getNameAsString()}, {"id", id(p)}, {"t", type(p->getType())}};
            if (p->getType()->isReferenceType())
                po["isref"] = true;
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto * m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = type(ctx.getRecordType(m->getParent()));
            o["pcls"] = plainName(m->getParent());
            o["const"] = m->isConst();
            o["acc"] = int(m->getAccess());
            o["static"] = m->isStatic();
            if (m->getParent()->isLambda())
                o["lambda"] = true;
            else
                addClass(m->getParent());
        }
        if (auto * c = dyn_cast<CXXConstructorDecl>(f))
        {
            o["kind"] = "ctor";
            Array in;
            for (auto * i : c->inits())
            {
                Object io;
                if (i->isAnyMemberInitializer())
                    io["fld"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer())
                    io["base"] = type(QualType(i->getBaseClass(), 0));
                else
                    io["deleg"] = true;
                io["e"] = expr(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(f))
            o["kind"] = "dtor";
        if (f->isDefaulted())
            o["defaulted"] = true;
        if (f->hasBody())
            o["body"] = stmt(f->getBody());
        return o;
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Dumper & d;
    explicit Visitor(Dumper & x) : d(x)
    {}
    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool shouldVisitImplicitCode() const
    {
        return false;
    }
    bool VisitFunctionDecl(FunctionDecl * f)
    {
        if (f->isThisDeclarationADefinition())
            d.need(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl * r)
    {
        if (r->isThisDeclarationADefinition() && d.inRoot(r->getLocation()))
            d.addClass(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl * e)
    {
        if (d.inRoot(e->getLocation()))
        {
            Object a;
            for (auto * c : e->enumerators())
                a[c->getNameAsString()] = c->getInitVal().getExtValue();
            d.enums[d.plainName(e)] = Object{{"v", std::move(a)}};
        }
        return true;
    }
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext & ctx) override
    {
        if (ctx.getDiagnostics().hasErrorOccurred())
        {
            llvm::errs() << "extract: the translation unit does not compile\n";
            return;
        }
        Dumper d(ctx);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << "{\"functions\":[\n";
        bool first = true;
        for (size_t i = 0; i < d.queue.size(); ++i)
        {
            if (!first)
                os << ",\n";
            first = false;
            os << Value(d.function(d.queue[i]));
        }
        os << "],\n\"globals\":{";
        first = true;
        // globals may grow while dumping, so iterate until stable is not needed: initialisers were dumped eagerly
        for (auto & [k, g] : d.globals)
        {
            if (!first)
                os << ",\n";
            first = false;
            os << "\"" << k << "\":" << Value(std::move(g));
        }
        os << "},\n\"classes\":{";
        first = true;
        for (auto & [k, c] : d.classes)
        {
            if (!first)
                os << ",\n";
            first = false;
            os << Value(k) << ":" << Value(std::move(c));
        }
        os << "},\n\"enums\":{";
        first = true;
        for (auto & [k, c] : d.enums)
        {
            if (!first)
                os << ",\n";
            first = false;
            os << Value(k) << ":" << Value(std::move(c));
        }
        os << "},\n\"bases\":{";
        first = true;
        for (auto & [k, b] : d.bases)
        {
            if (!first)
                os << ",\n";
            first = false;
            Array a;
            for (auto & s : b)
                a.push_back(s);
            os << Value(k) << ":" << Value(std::move(a));
        }
        os << "}}\n";
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

} // namespace

// extract ROOT OUT SOURCE -- compiler-args
int main(int argc, char const ** argv)
{
    if (argc < 5)
        return 2;
    g_root = argv[1];
    g_out = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
