// astx: exports the type-checked program (functions with bodies, records,
// enums, namespace-scope variables) that clang builds for one translation unit
// as JSON.  Only declarations located below --root are exported.  Implicit
// nodes that do not change a value are removed; overload resolution, template
// instantiation, default arguments and constant folding are clang's.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;

static json::Value intVal(const llvm::APSInt& v) {
    if (v.isRepresentableByInt64()) return (int64_t)v.getExtValue();
    llvm::SmallString<40> s;
    v.toString(s, 10);
    return std::string(s);
}

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
    explicit Exporter(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pol(c.getPrintingPolicy()) {
        pol.SuppressTagKeyword = true;
        pol.FullyQualifiedName = true;
        pol.SuppressUnwrittenScope = true;
        pol.PrintCanonicalTypes = true;
        pol.Bool = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pol;
    json::Array functions, records, enums, globals;
    std::map<const Decl*, int> ids;
    std::set<const Decl*> done;

    std::string fileOf(SourceLocation l) {
        if (l.isInvalid()) return "";
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        return p.isValid() ? std::string(p.getFilename()) : "";
    }
    int lineOf(SourceLocation l) {
        if (l.isInvalid()) return 0;
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        return p.isValid() ? (int)p.getLine() : 0;
    }
    bool inRoot(SourceLocation l) {
        auto f = fileOf(l);
        if (f.empty()) return false;
        llvm::SmallString<256> r;
        if (!llvm::sys::fs::real_path(f, r)) f = std::string(r);
        return f.compare(0, gRoot.size(), gRoot) == 0;
    }
    std::string relFile(SourceLocation l) {
        auto f = fileOf(l);
        llvm::SmallString<256> r;
        if (!llvm::sys::fs::real_path(f, r)) f = std::string(r);
        if (f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size() + 1);
        return f;
    }
    int id(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }
    std::string usr(const Decl* d) {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(d, b)) return "?" + std::to_string(id(d));
        return std::string(b);
    }
    static void qn(const DeclContext* dc, std::string& s) {
        if (!dc || dc->isTranslationUnit()) return;
        qn(dc->getParent(), s);
        if (auto ns = dyn_cast<NamespaceDecl>(dc)) {
            if (ns->isInline()) return;
            s += ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString();
            s += "::";
        } else if (auto td = dyn_cast<TagDecl>(dc)) {
            if (td->getTypedefNameForAnonDecl()) s += td->getTypedefNameForAnonDecl()->getNameAsString();
            else s += td->getNameAsString();
            s += "::";
        }
    }
    std::string qname(const NamedDecl* d) {
        std::string s;
        qn(d->getDeclContext(), s);
        s += d->getNameAsString();
        // constructors of templates print with template arguments
        auto lt = s.find('<');
        if (isa<CXXConstructorDecl>(d) && lt != std::string::npos) s = s.substr(0, lt);
        return s;
    }
    std::string ty(QualType t) {
        if (t.isNull()) return "?";
        return t.getCanonicalType().getAsString(pol);
    }
    // short category: b bool, i signed/unsigned integer, e enum, d floating, p pointer, c class, v void, r? reference stripped
    std::string cat(QualType t) {
        if (t.isNull()) return "?";
        t = t.getNonReferenceType().getCanonicalType();
        if (t->isBooleanType()) return "b";
        if (t->isEnumeralType()) return "e";
        if (t->isIntegerType()) return "i";
        if (t->isFloatingType()) return "d";
        if (t->isPointerType() || t->isNullPtrType()) return "p";
        if (t->isArrayType()) return "a";
        if (t->isVoidType()) return "v";
        if (t->isRecordType()) return "c";
        return "o";
    }

    json::Object node(const char* k, const Stmt* s) {
        json::Object o;
        o["k"] = k;
        o["ln"] = lineOf(s->getBeginLoc());
        return o;
    }

    json::Value stripped(const Expr* e) { return expr(e); }

    json::Array exprs(llvm::ArrayRef<const Expr*> v) {
        json::Array a;
        for (auto e : v) a.push_back(expr(e));
        return a;
    }
    template <class R> json::Array args(R range) {
        json::Array a;
        for (const Expr* e : range) a.push_back(expr(e));
        return a;
    }

    json::Value declref(const ValueDecl* d, const Expr* at) {
        json::Object o = node("ref", at);
        o["name"] = d->getNameAsString();
        o["t"] = cat(at->getType());
        if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
            o["k"] = "enumc";
            o["q"] = qname(ec);
            o["en"] = ty(ec->getType());
            if (auto ed = dyn_cast<EnumDecl>(ec->getDeclContext())) o["en"] = qname(ed);
            o["v"] = intVal(ec->getInitVal());
            return o;
        }
        if (auto fd = dyn_cast<FunctionDecl>(d)) {
            o["k"] = "fref";
            o["q"] = qname(fd);
            o["usr"] = usr(fd);
            return o;
        }
        o["id"] = id(d);
        if (auto vd = dyn_cast<VarDecl>(d)) {
            if (isa<ParmVarDecl>(vd)) o["dk"] = "param";
            else if (vd->isLocalVarDecl()) o["dk"] = vd->isStaticLocal() ? "slocal" : "local";
            else {
                o["dk"] = "global";
                o["q"] = qname(vd);
                o["usr"] = usr(vd);
                o["T"] = ty(vd->getType());
            }
            if (!at->isValueDependent() && !at->isTypeDependent() && vd->hasGlobalStorage()) {
                Expr::EvalResult r;
                QualType t = at->getType();
                if ((t->isArithmeticType() || t->isEnumeralType()) && at->EvaluateAsRValue(r, ctx) && !r.HasSideEffects) putCV(o, r.Val);
            }
        } else if (auto bd = dyn_cast<BindingDecl>(d)) {
            o["dk"] = "local";
            (void)bd;
        } else o["dk"] = "other";
        return o;
    }
    void putCV(json::Object& o, const APValue& v) {
        if (v.isInt()) o["cv"] = intVal(v.getInt());
        else if (v.isFloat()) o["cvd"] = v.getFloat().convertToDouble();
    }

    // how each parameter is passed: v value, c const reference, r mutable
    // reference, m rvalue reference, p pointer to mutable, q pointer to const
    std::string modes(const FunctionDecl* f) {
        std::string s;
        for (auto p : f->parameters()) {
            QualType t = p->getType();
            if (t->isRValueReferenceType()) s += 'm';
            else if (t->isReferenceType()) s += t->getPointeeType().isConstQualified() ? 'c' : 'r';
            else if (t->isPointerType()) s += t->getPointeeType().isConstQualified() ? 'q' : 'p';
            else s += 'v';
        }
        return s;
    }

    json::Value lambda(const LambdaExpr* le) {
        json::Object o = node("lambda", le);
        json::Array caps;
        for (auto it = le->capture_begin(); it != le->capture_end(); ++it) {
            json::Object c;
            if (it->capturesThis()) { c["this"] = true; }
            else if (it->capturesVariable()) {
                c["id"] = id(it->getCapturedVar());
                c["name"] = it->getCapturedVar()->getNameAsString();
                c["byref"] = it->getCaptureKind() == LCK_ByRef;
                if (auto vd = dyn_cast<VarDecl>(it->getCapturedVar()))
                    if (vd->isInitCapture() && vd->getInit()) c["init"] = expr(vd->getInit());
            }
            caps.push_back(std::move(c));
        }
        o["caps"] = std::move(caps);
        const FunctionDecl* op = le->getCallOperator();
        if (le->isGenericLambda()) {
            json::Array alts;
            if (auto ft = le->getLambdaClass()->getDependentLambdaCallOperator()) {
                for (auto s : ft->specializations()) if (s->getBody()) {
                    json::Object b;
                    b["usr"] = usr(s);
                    b["params"] = params(s);
                    b["body"] = stmt(s->getBody());
                    alts.push_back(std::move(b));
                }
            }
            o["alts"] = std::move(alts);
        } else {
            o["usr"] = usr(op);
            o["params"] = params(op);
            o["body"] = stmt(op->getBody());
        }
        return o;
    }

    json::Array params(const FunctionDecl* f) {
        json::Array a;
        for (auto p : f->parameters()) {
            json::Object o;
            o["name"] = p->getNameAsString();
            o["id"] = id(p);
            o["T"] = ty(p->getType());
            QualType t = p->getType();
            o["ref"] = t->isReferenceType();
            o["cref"] = t->isReferenceType() && t->getPointeeType().isConstQualified();
            o["t"] = cat(t);
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["def"] = expr(p->getDefaultArg());
            a.push_back(std::move(o));
        }
        return a;
    }

    json::Value unk(const Stmt* s) {
        json::Object o = node("unk", s);
        o["cls"] = s->getStmtClassName();
        json::Array kids;
        for (auto c : s->children()) if (c) {
            if (auto e = dyn_cast<Expr>(c)) kids.push_back(expr(e));
            else kids.push_back(stmt(c));
        }
        o["kids"] = std::move(kids);
        return o;
    }

    json::Value expr(const Expr* e) {
        if (!e) return nullptr;
        // transparent wrappers
        if (auto x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
        if (auto x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
        if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) return expr(x->getCommonExpr());
        if (auto x = dyn_cast<ImplicitCastExpr>(e)) {
            switch (x->getCastKind()) {
            case CK_FloatingToIntegral: { json::Object o = node("cast", e); o["ck"] = "f2i"; o["e"] = expr(x->getSubExpr()); return o; }
            case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: { json::Object o = node("cast", e); o["ck"] = "bool"; o["e"] = expr(x->getSubExpr()); o["st"] = cat(x->getSubExpr()->getType()); return o; }
            case CK_IntegralToFloating: { json::Object o = node("cast", e); o["ck"] = "i2f"; o["e"] = expr(x->getSubExpr()); return o; }
            default: return expr(x->getSubExpr());
            }
        }
        if (auto x = dyn_cast<CXXDynamicCastExpr>(e)) { json::Object o = node("dyncast", e); o["T"] = ty(x->getType()); o["e"] = expr(x->getSubExpr()); return o; }
        if (auto x = dyn_cast<ExplicitCastExpr>(e)) {
            QualType to = x->getType(), from = x->getSubExpr()->getType();
            if (x->getCastKind() == CK_ToVoid) { json::Object o = node("cast", e); o["ck"] = "void"; o["e"] = expr(x->getSubExpr()); return o; }
            if (to->isRecordType()) return expr(x->getSubExpr());
            if (to->isIntegerType() && from->isFloatingType()) {
                json::Object o = node("cast", e); o["ck"] = "f2i";
                const Expr* s = x->getSubExpr();
                if (auto ic = dyn_cast<ImplicitCastExpr>(s)) if (ic->getCastKind() == CK_FloatingToIntegral) s = ic->getSubExpr();
                o["e"] = expr(s); return o;
            }
            if (to->isFloatingType() && (from->isIntegerType() || from->isEnumeralType())) {
                const Expr* s = x->getSubExpr();
                if (auto ic = dyn_cast<ImplicitCastExpr>(s)) if (ic->getCastKind() == CK_IntegralToFloating) s = ic->getSubExpr();
                json::Object o = node("cast", e); o["ck"] = "i2f"; o["e"] = expr(s); return o;
            }
            if (to->isPointerType() && from->isPointerType()) { json::Object o = node("cast", e); o["ck"] = "ptr"; o["T"] = ty(to); o["ST"] = ty(from->getPointeeType()); o["e"] = expr(x->getSubExpr()); return o; }
            if (to->isEnumeralType()) { json::Object o = node("cast", e); o["ck"] = "enum"; o["T"] = ty(to); o["e"] = expr(x->getSubExpr()); return o; }
            return expr(x->getSubExpr());
        }
        if (auto x = dyn_cast<IntegerLiteral>(e)) { json::Object o = node("int", e); o["v"] = (int64_t)x->getValue().getLimitedValue(INT64_MAX); return o; }
        if (auto x = dyn_cast<FloatingLiteral>(e)) {
            json::Object o = node("flt", e);
            llvm::SmallString<32> s; x->getValue().toString(s, 17, 0);
            o["v"] = std::string(s); return o;
        }
        if (auto x = dyn_cast<clang::StringLiteral>(e)) { json::Object o = node("str", e); o["v"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : std::string("?"); return o; }
        if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { json::Object o = node("bool", e); o["v"] = x->getValue(); return o; }
        if (auto x = dyn_cast<CharacterLiteral>(e)) { json::Object o = node("char", e); o["v"] = (int64_t)x->getValue(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return node("null", e);
        if (isa<CXXThisExpr>(e)) return node("this", e);
        if (auto x = dyn_cast<DeclRefExpr>(e)) return declref(x->getDecl(), x);
        if (auto x = dyn_cast<MemberExpr>(e)) {
            if (isa<EnumConstantDecl>(x->getMemberDecl()) || isa<VarDecl>(x->getMemberDecl())) return declref(x->getMemberDecl(), x);
            json::Object o = node("member", e);
            o["name"] = x->getMemberDecl()->getNameAsString();
            o["q"] = qname(x->getMemberDecl());
            o["arrow"] = x->isArrow();
            o["t"] = cat(x->getType());
            o["T"] = ty(x->getMemberDecl()->getType());
            o["b"] = expr(x->getBase());
            return o;
        }
        if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
            json::Object o = node("opcall", e);
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto fd = x->getDirectCallee()) { o["q"] = qname(fd); o["usr"] = usr(fd); o["pm"] = modes(fd); if (auto md = dyn_cast<CXXMethodDecl>(fd)) { o["meth"] = true; if (md->isConst()) o["const"] = true; } }
            o["t"] = cat(x->getType());
            o["args"] = args(x->arguments());
            o["T"] = ty(x->getType());
            if (x->getNumArgs()) o["T0"] = ty(x->getArg(0)->getType());
            return o;
        }
        if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto md = x->getMethodDecl();
            json::Object o = node("mcall", e);
            if (md) {
                o["q"] = qname(md); o["name"] = md->getNameAsString(); o["usr"] = usr(md); o["pm"] = modes(md); if (md->getReturnType()->isReferenceType()) o["rref"] = true;
                if (md->isVirtual()) {
                    bool qual = false;
                    if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) qual = me->hasQualifier();
                    if (!qual) o["virt"] = true;
                }
                if (md->isConst()) o["const"] = true;
                if (isa<CXXConversionDecl>(md)) o["conv"] = true;
            }
            o["t"] = cat(x->getType());
            o["T"] = ty(x->getType());
            if (auto obj = x->getImplicitObjectArgument()) {
                o["obj"] = expr(obj);
                o["OT"] = ty(obj->getType());
                if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) o["arrow"] = me->isArrow();
            }
            o["args"] = args(x->arguments());
            return o;
        }
        if (auto x = dyn_cast<CallExpr>(e)) {
            json::Object o = node("call", e);
            if (auto fd = x->getDirectCallee()) {
                o["q"] = qname(fd); o["usr"] = usr(fd); o["pm"] = modes(fd); if (fd->getReturnType()->isReferenceType()) o["rref"] = true;
                if (fd->isNoReturn()) o["noret"] = true;
                if (auto ta = fd->getTemplateSpecializationArgs()) {
                    json::Array tas;
                    for (auto& a : ta->asArray()) if (a.getKind() == TemplateArgument::Type) tas.push_back(ty(a.getAsType())); else if (a.getKind() == TemplateArgument::Integral) tas.push_back(intVal(a.getAsIntegral()));
                    o["targs"] = std::move(tas);
                }
            }
            else o["fn"] = expr(x->getCallee());
            o["t"] = cat(x->getType());
            o["T"] = ty(x->getType());
            o["args"] = args(x->arguments());
            return o;
        }
        if (auto x = dyn_cast<CXXConstructExpr>(e)) {
            json::Object o = node("construct", e);
            auto cd = x->getConstructor();
            o["T"] = ty(x->getType());
            o["q"] = qname(cd);
            o["usr"] = usr(cd);
            o["pm"] = modes(cd);
            if (cd->isCopyConstructor()) o["copy"] = 1;
            else if (cd->isMoveConstructor()) o["copy"] = 2;
            if (x->isListInitialization()) o["list"] = true;
            if (x->isStdInitListInitialization()) o["il"] = true;
            o["args"] = args(x->arguments());
            return o;
        }
        if (auto x = dyn_cast<InitListExpr>(e)) {
            if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            json::Object o = node("init", e);
            o["T"] = ty(x->getType());
            o["c"] = cat(x->getType());
            json::Array a;
            for (auto i : x->inits()) a.push_back(expr(i));
            o["elts"] = std::move(a);
            if (x->hasArrayFiller()) {
                if (auto at = ctx.getAsConstantArrayType(x->getType())) o["n"] = (int64_t)at->getSize().getZExtValue();
                o["fill"] = expr(x->getArrayFiller());
            }
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { json::Object o = node("zero", e); o["T"] = ty(e->getType()); o["t"] = cat(e->getType()); return o; }
        if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { json::Object o = node("sub", e); o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); o["t"] = cat(x->getType()); o["T"] = ty(x->getType()); return o; }
        if (auto x = dyn_cast<UnaryOperator>(e)) {
            json::Object o = node("un", e);
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["t"] = cat(x->getType());
            o["T"] = ty(x->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto x = dyn_cast<CompoundAssignOperator>(e)) {
            json::Object o = node("cassign", e);
            o["op"] = x->getOpcodeStr().str().substr(0, x->getOpcodeStr().size() - 1);
            o["t"] = cat(x->getType());
            o["ct"] = cat(x->getComputationResultType());
            o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS());
            return o;
        }
        if (auto x = dyn_cast<BinaryOperator>(e)) {
            json::Object o = node(x->getOpcode() == BO_Assign ? "assign" : "bin", e);
            o["op"] = x->getOpcodeStr().str();
            o["t"] = cat(x->getType());
            o["lt"] = cat(x->getLHS()->getType());
            o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS());
            return o;
        }
        if (auto x = dyn_cast<AbstractConditionalOperator>(e)) { json::Object o = node("cond", e); o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); o["t"] = cat(x->getType()); o["T"] = ty(x->getType()); return o; }
        if (auto x = dyn_cast<LambdaExpr>(e)) return lambda(x);
        if (auto x = dyn_cast<CXXNewExpr>(e)) {
            json::Object o = node("new", e);
            o["T"] = ty(x->getAllocatedType());
            if (x->isArray()) { o["arr"] = true; if (x->getArraySize()) o["n"] = expr(*x->getArraySize()); }
            if (x->getInitializer()) o["init"] = expr(x->getInitializer());
            return o;
        }
        if (auto x = dyn_cast<CXXDeleteExpr>(e)) { json::Object o = node("delete", e); o["arr"] = x->isArrayForm(); o["e"] = expr(x->getArgument()); return o; }
        if (auto x = dyn_cast<CXXThrowExpr>(e)) { json::Object o = node("throw", e); if (x->getSubExpr()) { o["e"] = expr(x->getSubExpr()); o["T"] = ty(x->getSubExpr()->getType()); } return o; }
        if (auto x = dyn_cast<ParenListExpr>(e)) { json::Object o = node("init", e); json::Array a; for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(expr(x->getExpr(i))); o["elts"] = std::move(a); o["T"] = "?"; return o; }
        if (!e->isValueDependent() && !e->isTypeDependent() && !e->containsErrors() && e->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult r;
            if (e->EvaluateAsRValue(r, ctx) && !r.HasSideEffects && r.Val.isInt()) { json::Object o = node("int", e); o["v"] = intVal(r.Val.getInt()); return o; }
        }
        return unk(e);
    }

    json::Object var(const VarDecl* v) {
        json::Object o;
        o["name"] = v->getNameAsString();
        o["id"] = id(v);
        o["T"] = ty(v->getType());
        o["t"] = cat(v->getType());
        o["ln"] = lineOf(v->getBeginLoc());
        if (v->getType()->isReferenceType()) o["ref"] = true;
        if (v->isStaticLocal()) o["static"] = true;
        if (auto at = ctx.getAsConstantArrayType(v->getType())) o["n"] = (int64_t)at->getSize().getZExtValue();
        if (v->getInit()) o["init"] = expr(v->getInit());
        return o;
    }

    json::Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        if (auto e = dyn_cast<Expr>(s)) { json::Object o = node("expr", s); o["e"] = expr(e); return o; }
        if (auto x = dyn_cast<CompoundStmt>(s)) { json::Object o = node("block", s); json::Array a; for (auto c : x->body()) a.push_back(stmt(c)); o["b"] = std::move(a); return o; }
        if (auto x = dyn_cast<DeclStmt>(s)) {
            json::Object o = node("decl", s);
            json::Array a;
            for (auto d : x->decls()) {
                if (auto dd = dyn_cast<DecompositionDecl>(d)) {
                    json::Object v = var(dd);
                    json::Array bs;
                    for (auto b : dd->bindings()) {
                        json::Object bo; bo["id"] = id(b); bo["name"] = b->getNameAsString();
                        if (auto hv = b->getHoldingVar()) bo["hid"] = id(hv);
                        bs.push_back(std::move(bo));
                    }
                    v["binds"] = std::move(bs);
                    a.push_back(std::move(v));
                } else if (auto vd = dyn_cast<VarDecl>(d)) a.push_back(var(vd));
            }
            o["vars"] = std::move(a);
            return o;
        }
        if (auto x = dyn_cast<IfStmt>(s)) {
            json::Object o = node("if", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
            if (auto nd = x->getNondiscardedCase(ctx)) { json::Object bl = node("block", s); json::Array a; if (*nd) a.push_back(stmt(*nd)); bl["b"] = std::move(a); return bl; }
            o["c"] = expr(x->getCond());
            o["a"] = stmt(x->getThen());
            if (x->getElse()) o["b"] = stmt(x->getElse());
            return o;
        }
        if (auto x = dyn_cast<ForStmt>(s)) {
            json::Object o = node("for", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getCond()) o["c"] = expr(x->getCond());
            if (x->getInc()) o["inc"] = expr(x->getInc());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto x = dyn_cast<WhileStmt>(s)) { json::Object o = node("while", s); if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
        if (auto x = dyn_cast<DoStmt>(s)) { json::Object o = node("do", s); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
        if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
            json::Object o = node("rfor", s);
            o["r"] = expr(x->getRangeInit());
            o["RT"] = ty(x->getRangeInit()->getType());
            auto lv = x->getLoopVariable();
            json::Object v;
            v["name"] = lv->getNameAsString(); v["id"] = id(lv); v["T"] = ty(lv->getType()); v["t"] = cat(lv->getType());
            if (lv->getType()->isReferenceType()) v["ref"] = true;
            if (auto dd = dyn_cast<DecompositionDecl>(lv)) {
                json::Array bs;
                for (auto b : dd->bindings()) { json::Object bo; bo["id"] = id(b); bo["name"] = b->getNameAsString(); if (auto hv = b->getHoldingVar()) bo["hid"] = id(hv); bs.push_back(std::move(bo)); }
                v["binds"] = std::move(bs);
            }
            o["v"] = std::move(v);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto x = dyn_cast<SwitchStmt>(s)) { json::Object o = node("switch", s); if (x->getInit()) o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["ct"] = ty(x->getCond()->IgnoreParenImpCasts()->getType()); o["b"] = stmt(x->getBody()); return o; }
        if (auto x = dyn_cast<CaseStmt>(s)) { json::Object o = node("case", s); o["v"] = expr(x->getLHS()); if (x->getRHS()) o["v2"] = expr(x->getRHS()); o["s"] = stmt(x->getSubStmt()); return o; }
        if (auto x = dyn_cast<DefaultStmt>(s)) { json::Object o = node("default", s); o["s"] = stmt(x->getSubStmt()); return o; }
        if (isa<BreakStmt>(s)) return node("break", s);
        if (isa<ContinueStmt>(s)) return node("continue", s);
        if (isa<NullStmt>(s)) return node("nop", s);
        if (auto x = dyn_cast<ReturnStmt>(s)) { json::Object o = node("return", s); if (x->getRetValue()) o["e"] = expr(x->getRetValue()); return o; }
        if (auto x = dyn_cast<CXXTryStmt>(s)) {
            json::Object o = node("try", s);
            o["b"] = stmt(x->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto h = x->getHandler(i);
                json::Object ho;
                if (h->getExceptionDecl()) { ho["T"] = ty(h->getCaughtType()); ho["id"] = id(h->getExceptionDecl()); }
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        if (auto x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        if (auto x = dyn_cast<LabelStmt>(s)) return stmt(x->getSubStmt());
        if (auto x = dyn_cast<CapturedStmt>(s)) return stmt(x->getCapturedStmt());
        if (auto x = dyn_cast<OMPExecutableDirective>(s)) {
            json::Object o = node("omp", s);
            o["dir"] = llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str();
            json::Array cl;
            for (auto c : x->clauses()) {
                json::Object co;
                co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                json::Array vs;
                auto add = [&](auto* lst) { for (auto v : lst->varlists()) vs.push_back(expr(v)); };
                if (auto p = dyn_cast<OMPPrivateClause>(c)) add(p);
                else if (auto p = dyn_cast<OMPFirstprivateClause>(c)) add(p);
                else if (auto p = dyn_cast<OMPSharedClause>(c)) add(p);
                else if (auto p = dyn_cast<OMPReductionClause>(c)) { add(p); co["op"] = p->getNameInfo().getName().getAsString(); }
                co["vars"] = std::move(vs);
                cl.push_back(std::move(co));
            }
            o["clauses"] = std::move(cl);
            if (x->hasAssociatedStmt()) {
                const Stmt* b = x->getAssociatedStmt();
                while (auto cs = dyn_cast<CapturedStmt>(b)) b = cs->getCapturedStmt();
                o["b"] = stmt(b);
            }
            return o;
        }
        if (auto x = dyn_cast<OMPCanonicalLoop>(s)) return stmt(x->getLoopStmt());
        return unk(s);
    }

    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted() && !f->isDeleted()) {
            return true;
        }
        if (f->isDependentContext()) return true;
        if (!inRoot(f->getLocation())) return true;
        if (auto md = dyn_cast<CXXMethodDecl>(f)) if (md->getParent()->isLambda()) return true;
        if (!f->getBody() && !f->isDefaulted() && !f->isDeleted()) return true;
        if (!done.insert(f).second) return true;
        json::Object o;
        o["q"] = qname(f);
        o["name"] = f->getNameAsString();
        o["usr"] = usr(f);
        o["file"] = relFile(f->getLocation());
        o["ln"] = lineOf(f->getBeginLoc());
        o["eln"] = lineOf(f->getEndLoc());
        o["ret"] = ty(f->getReturnType());
        o["rt"] = cat(f->getReturnType());
        if (f->getReturnType()->isReferenceType()) o["rref"] = true;
        o["params"] = params(f);
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isDeleted()) o["deleted"] = true;
        if (f->getStorageClass() == SC_Static) o["static"] = true;
        if (auto ta = f->getTemplateSpecializationArgs()) { json::Array a; for (auto& t : ta->asArray()) if (t.getKind() == TemplateArgument::Type) a.push_back(ty(t.getAsType())); o["targs"] = std::move(a); }
        if (auto md = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = ty(ctx.getRecordType(md->getParent()));
            o["clsq"] = qname(md->getParent());
            o["meth"] = !md->isStatic();
            if (md->isVirtual()) o["virt"] = true;
            if (md->isConst()) o["const"] = true;
            json::Array ov;
            for (auto m : md->overridden_methods()) ov.push_back(usr(m));
            o["over"] = std::move(ov);
        }
        if (auto cd = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            if (cd->isCopyConstructor()) o["copy"] = 1;
            if (cd->isMoveConstructor()) o["copy"] = 2;
            json::Array in;
            for (auto i : cd->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) { io["field"] = i->getAnyMember()->getNameAsString(); io["T"] = ty(i->getAnyMember()->getType()); }
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                else io["deleg"] = true;
                io["written"] = i->isWritten();
                io["e"] = expr(i->getInit());
                io["ln"] = lineOf(i->getSourceLocation());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        if (f->getBody()) o["body"] = stmt(f->getBody());
        functions.push_back(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
        if (!inRoot(r->getLocation())) return true;
        if (!done.insert(r).second) return true;
        json::Object o;
        o["q"] = qname(r);
        o["T"] = ty(ctx.getRecordType(r));
        o["file"] = relFile(r->getLocation());
        o["ln"] = lineOf(r->getBeginLoc());
        json::Array bs;
        for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto f : r->fields()) {
            json::Object fo;
            fo["name"] = f->getNameAsString();
            fo["T"] = ty(f->getType());
            fo["t"] = cat(f->getType());
            fo["ln"] = lineOf(f->getBeginLoc());
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        o["abstract"] = r->isAbstract();
        o["aggr"] = r->isAggregate();
        o["poly"] = r->isPolymorphic();
        o["vdtor"] = r->getDestructor() && r->getDestructor()->isVirtual();
        o["ucopy"] = r->hasUserDeclaredCopyConstructor();
        json::Array ms;
        for (auto m : r->methods()) {
            json::Object mo;
            mo["name"] = m->getNameAsString(); mo["usr"] = usr(m); mo["virt"] = m->isVirtual(); mo["pure"] = m->isPureVirtual(); mo["deleted"] = m->isDeleted(); mo["implicit"] = m->isImplicit(); mo["const"] = m->isConst();
            json::Array ov; for (auto x : m->overridden_methods()) ov.push_back(usr(x)); mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext() || !inRoot(e->getLocation())) return true;
        json::Object o;
        o["q"] = qname(e);
        o["file"] = relFile(e->getLocation());
        o["ln"] = lineOf(e->getBeginLoc());
        json::Array cs;
        for (auto c : e->enumerators()) { json::Object co; co["name"] = c->getNameAsString(); co["v"] = intVal(c->getInitVal()); cs.push_back(std::move(co)); }
        o["consts"] = std::move(cs);
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v)) return true;
        if (v->isTemplated() || v->getDeclContext()->isDependentContext() || !inRoot(v->getLocation())) return true;
        if (!v->getInit() && !v->isThisDeclarationADefinition()) return true;
        json::Object o = var(v);
        o["q"] = qname(v);
        o["usr"] = usr(v);
        o["file"] = relFile(v->getLocation());
        o["const"] = v->getType().isConstQualified();
        if (v->getInit() && !v->getInit()->isValueDependent() && v->getType()->isArithmeticType()) {
            Expr::EvalResult r;
            if (v->getInit()->EvaluateAsRValue(r, ctx) && !r.HasSideEffects) putCV(o, r.Val);
        }
        globals.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& c) override {
        Exporter x(c);
        x.TraverseDecl(c.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(x.functions);
        o["records"] = std::move(x.records);
        o["enums"] = std::move(x.enums);
        o["globals"] = std::move(x.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
        ci.getDiagnostics().setSuppressAllDiagnostics(false);
        return std::make_unique<Consumer>();
    }
};
}

int main(int argc, const char** argv) {
    // astx ROOT OUT SOURCE -- flags...
    if (argc < 5) return 2;
    gRoot = argv[1];
    gOut = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool t(db, {src});
    int r = t.run(tooling::newFrontendActionFactory<Action>().get());
    // errors in the source leave recovery nodes behind; the exit status tells the caller
    return r;
}
