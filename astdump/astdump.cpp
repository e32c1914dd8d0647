// astdump: extracts the typed bodies of functions of /repo (and everything in /repo they call) as JSON.
// usage: astdump --root R --want NAME[,NAME...] --out F.json SRC.cpp -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <fstream>
using namespace clang;
namespace json = llvm::json;
static std::vector<std::string> g_want; static std::string g_out, g_root;
static bool matchName(const std::string& qn) { for (auto& w : g_want) { if (qn == w) return true; if (!w.empty() && w.back() == '*' && qn.rfind(w.substr(0, w.size() - 1), 0) == 0) return true; } return false; }

struct Dumper {
    ASTContext& C; SourceManager& SM;
    std::map<const Type*, int> tix; json::Array types;
    std::map<const FunctionDecl*, std::string> fnKey; std::deque<const FunctionDecl*> work; json::Object funcs;
    std::map<const CXXRecordDecl*, bool> recSeen; json::Object records; json::Object globals; std::set<const VarDecl*> gseen;
    std::map<const Decl*, int> ids; int nextId = 1;
    std::unique_ptr<MangleContext> MC; json::Array roots;
    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()) {}
    int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; return ids[d] = nextId++; }
    std::string file(SourceLocation l) { l = SM.getExpansionLoc(l); auto p = SM.getFilename(l); return p.str(); }
    bool inRepo(const Decl* d) {
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) if (sp->getSpecializationKind() != TSK_ExplicitSpecialization) d = sp->getSpecializedTemplate();
        if (auto* fd = dyn_cast<FunctionDecl>(d)) if (auto* pat = fd->getTemplateInstantiationPattern()) d = pat;
        auto f = file(d->getLocation()); return f.rfind(g_root + "/", 0) == 0; }
    unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

    std::string qname(const NamedDecl* d) {
        std::string s; llvm::raw_string_ostream os(s);
        PrintingPolicy P(C.getLangOpts()); P.SuppressTemplateArgsInCXXConstructors = true;
        // strip template args: build manually
        std::vector<std::string> parts;
        std::string nm;
        if (auto* cd = dyn_cast<CXXConstructorDecl>(d)) nm = "(ctor)";
        else if (isa<CXXDestructorDecl>(d)) nm = "(dtor)";
        else if (isa<CXXConversionDecl>(d)) nm = "(conv)";
        else nm = d->getNameAsString();
        parts.push_back(nm);
        for (auto* ctx = d->getDeclContext(); ctx && !ctx->isTranslationUnit(); ctx = ctx->getParent()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(ctx)) { if (ns->isAnonymousNamespace() || ns->isInline()) continue; parts.push_back(ns->getNameAsString()); }
            else if (auto* r = dyn_cast<RecordDecl>(ctx)) { std::string n = r->getNameAsString(); if (n.empty()) n = "(anon)"; parts.push_back(n); }
            else if (auto* f = dyn_cast<FunctionDecl>(ctx)) { parts.push_back(f->getNameAsString()); }
            else if (auto* e = dyn_cast<EnumDecl>(ctx)) { if (e->isScoped()) parts.push_back(e->getNameAsString()); }
        }
        std::string r; for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
        return r;
    }
    json::Value targ(const TemplateArgument& a) {
        switch (a.getKind()) {
        case TemplateArgument::Type: return json::Object{{"t", type(a.getAsType())}};
        case TemplateArgument::Integral: { llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10); return json::Object{{"v", s.str().str()}}; }
        case TemplateArgument::Pack: { json::Array x; for (auto& e : a.pack_elements()) x.push_back(targ(e)); return json::Object{{"p", std::move(x)}}; }
        default: return json::Object{{"x", 1}};
        }
    }
    int type(QualType q) {
        q = q.getCanonicalType(); bool cst = q.isConstQualified();
        const Type* t = q.getTypePtr();
        // const matters only behind refs/ptrs; dropped otherwise
        (void) cst;
        auto it = tix.find(t); if (it != tix.end()) return it->second;
        int ix = types.size(); tix[t] = ix; types.push_back(json::Object{{"k", "pending"}});
        json::Object o; o["s"] = QualType(t, 0).getAsString();
        if (auto* b = dyn_cast<BuiltinType>(t)) {
            if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
            else if (b->isInteger()) { o["k"] = "int"; o["w"] = (int64_t) C.getTypeSize(q); o["sg"] = b->isSignedInteger(); o["ch"] = b->isCharType(); }
            else if (b->isFloatingPoint()) o["k"] = "float";
            else if (b->getKind() == BuiltinType::Void) o["k"] = "void";
            else if (b->getKind() == BuiltinType::NullPtr) o["k"] = "nullptr";
            else o["k"] = "other";
        } else if (auto* r = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["to"] = type(r->getPointeeType()); o["cst"] = r->getPointeeType().isConstQualified(); o["rv"] = isa<RValueReferenceType>(t); }
        else if (auto* p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = type(p->getPointeeType()); o["cst"] = p->getPointeeType().isConstQualified(); }
        else if (auto* a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["n"] = (int64_t) a->getSize().getZExtValue(); o["of"] = type(a->getElementType()); }
        else if (auto* e = dyn_cast<EnumType>(t)) { o["k"] = "enum"; o["qn"] = qname(e->getDecl()); auto it2 = e->getDecl()->getIntegerType(); if (!it2.isNull()) { o["w"] = (int64_t) C.getTypeSize(it2); o["sg"] = it2->isSignedIntegerType(); } }
        else if (auto* r = dyn_cast<RecordType>(t)) {
            o["k"] = "rec"; auto* d = r->getDecl(); o["qn"] = qname(d);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) { json::Array as; for (auto& a : sp->getTemplateArgs().asArray()) as.push_back(targ(a)); o["args"] = std::move(as); }
            if (auto* cd = dyn_cast<CXXRecordDecl>(d)) { if (cd->isLambda()) o["lambda"] = true; int rk = record(cd); if (rk >= 0) o["rec"] = rk; }
        } else if (t->isFunctionProtoType()) o["k"] = "fn";
        else o["k"] = "other";
        types[ix] = std::move(o); return ix;
    }
    std::map<const CXXRecordDecl*, int> recIx; 
    int record(const CXXRecordDecl* d) {
        d = d->getDefinition(); if (!d) return -1; 
        auto it = recIx.find(d); if (it != recIx.end()) return it->second;
        int k = recIx.size(); recIx[d] = k;
        json::Object o; o["qn"] = qname(d); o["repo"] = inRepo(d); 
        json::Array bs; for (auto& b : d->bases()) bs.push_back(type(b.getType())); o["bases"] = std::move(bs);
        if (inRepo(d) || d->isLambda()) {
            json::Array fs; for (auto* f : d->fields()) { json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"id", id(f)}}; if (f->isMutable()) fo["mut"] = true; if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
            o["fields"] = std::move(fs);
            if (auto* dt = d->getDestructor()) if (dt->isUserProvided()) { o["dtor"] = fkey(dt); }
        } 
        records[std::to_string(k)] = std::move(o); return k;
    }
    std::string mangled(const FunctionDecl* f) {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto* dd = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(dd, Dtor_Complete), os);
        else if (MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os); else os << f->getNameAsString();
        os.flush(); return s;
    }
    std::string fkey(const FunctionDecl* f) {
        const FunctionDecl* c = f->getCanonicalDecl();
        auto it = fnKey.find(c); if (it != fnKey.end()) return it->second;
        std::string k = mangled(c); 
        // lambdas in different functions can share mangling for internal linkage: disambiguate
        if (auto* m = dyn_cast<CXXMethodDecl>(c)) if (m->getParent()->isLambda()) k += "#" + std::to_string(id(c));
        fnKey[c] = k; work.push_back(c); return k;
    }
    json::Value fref(const FunctionDecl* f) {
        json::Object o; o["key"] = fkey(f); o["qn"] = qname(f);
        if (f->isTemplateInstantiation()) if (auto* a = f->getTemplateSpecializationArgs()) { json::Array as; for (auto& x : a->asArray()) as.push_back(targ(x)); o["ta"] = std::move(as); }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = type(C.getRecordType(m->getParent())); o["virt"] = m->isVirtual(); o["static"] = m->isStatic(); if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["asg"] = true; 
            if (auto* cc = dyn_cast<CXXConstructorDecl>(m)) { if (cc->isCopyOrMoveConstructor()) o["copy"] = true; if (cc->isDefaultConstructor()) o["dflt"] = true; } }
        json::Array ps; for (auto* p : f->parameters()) ps.push_back(type(p->getType())); o["pt"] = std::move(ps); o["ret"] = type(f->getReturnType());
        return json::Object(std::move(o));
    }
    void emitFn(const FunctionDecl* c) {
        const FunctionDecl* d = nullptr; if (!c->hasBody(d)) d = c->getDefinition();
        json::Object o; std::string k = fnKey[c]; o["qn"] = qname(c);
        const FunctionDecl* defn = nullptr; bool hb = c->isDefined(defn);
        if (!hb || !defn) { o["nobody"] = true; funcs[k] = std::move(o); return; }
        if (!inRepo(defn) && !(isa<CXXMethodDecl>(defn) && cast<CXXMethodDecl>(defn)->getParent()->isLambda())) { o["ext"] = true; funcs[k] = std::move(o); return; }
        o["file"] = file(defn->getLocation()); o["line"] = line(defn->getLocation());
        if (defn->isDefaulted()) { o["defaulted"] = true; }
        if (defn->isDeleted()) { o["nobody"] = true; }
        json::Array ps; for (auto* p : defn->parameters()) { json::Object po{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}}; if (isa<CXXConstructorDecl>(defn) && p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) po["def"] = expr(p->getDefaultArg()); ps.push_back(std::move(po)); }
        o["params"] = std::move(ps); o["ret"] = type(defn->getReturnType());
        if (auto* m = dyn_cast<CXXMethodDecl>(defn)) { o["cls"] = type(C.getRecordType(m->getParent())); o["static"] = m->isStatic(); o["const"] = m->isConst(); o["lambda"] = m->getParent()->isLambda(); 
          if (m->getParent()->isLambda()) { llvm::DenseMap<const ValueDecl*, FieldDecl*> cap; FieldDecl* th = nullptr; m->getParent()->getCaptureFields(cap, th); json::Object co; for (auto& kv : cap) { int fi = kv.second->getFieldIndex(); co[std::to_string(id(kv.first))] = fi; } if (th) co["this"] = (int64_t) th->getFieldIndex(); o["caps"] = std::move(co);} }
        if (auto* ct = dyn_cast<CXXConstructorDecl>(defn)) { o["ctor"] = true; if (ct->isCopyOrMoveConstructor()) o["copy"] = true; json::Array in;
            for (auto* i : ct->inits()) { json::Object io; if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString(); else if (i->isBaseInitializer()) io["b"] = type(QualType(i->getBaseClass(), 0)); else if (i->isDelegatingInitializer()) io["d"] = true; io["e"] = expr(i->getInit()); in.push_back(std::move(io)); }
            o["inits"] = std::move(in); }
        if (defn->getBody()) o["body"] = stmt(defn->getBody());
        funcs[k] = std::move(o);
    }
    json::Value var(const VarDecl* v) {
        json::Object o{{"k", "Var"}, {"id", id(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}, {"l", line(v->getLocation())}};
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getInit()) o["init"] = expr(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) { json::Array bs; for (auto* b : dd->bindings()) { json::Object bo{{"id", id(b)}, {"n", b->getNameAsString()}}; if (auto* hv = b->getHoldingVar()) { bo["hv"] = id(hv); if (hv->getInit()) bo["hinit"] = expr(hv->getInit()); bo["ht"] = type(hv->getType()); } else if (b->getBinding()) bo["e"] = expr(b->getBinding()); bs.push_back(std::move(bo)); } o["bind"] = std::move(bs); }
        return json::Object(std::move(o));
    }
    void global(const VarDecl* v) {
        v = v->getCanonicalDecl(); if (!gseen.insert(v).second) return; 
        const VarDecl* d = v->getDefinition(); if (!d) d = v; const Expr* init = v->getAnyInitializer();
        json::Object o{{"qn", qname(v)}, {"t", type(v->getType())}, {"const", v->getType().isConstQualified()}, {"repo", inRepo(v)}};
        if (init && inRepo(v)) o["init"] = expr(init);
        globals[std::to_string(id(v))] = std::move(o);
    }
    json::Value nul() { return json::Value(nullptr); }
    json::Value expr(const Expr* e) {
        if (!e) return nul();
        // transparent wrappers
        if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { return json::Object{{"k", "Mat"}, {"t", type(e->getType())}, {"c", json::Array{expr(x->getSubExpr())}}}; }
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if (auto* x = dyn_cast<ConstantExpr>(e)) { return expr(x->getSubExpr()); }
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return json::Object{{"k", "StdInitList"}, {"t", type(e->getType())}, {"c", json::Array{expr(x->getSubExpr())}}};
        json::Object o; o["t"] = type(e->getType()); o["l"] = line(e->getExprLoc()); if (e->isLValue()) o["lv"] = true;
        if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue()) {
            Expr::EvalResult r; if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); }
        }
        auto fin = [&](const char* k, json::Array c) { o["k"] = k; o["c"] = std::move(c); return json::Value(json::Object(std::move(o))); };
        if (isa<IntegerLiteral>(e) || isa<CharacterLiteral>(e) || isa<CXXBoolLiteralExpr>(e) || isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e)) return fin("Const", {});
        if (isa<FloatingLiteral>(e)) { o["fv"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble(); return fin("Float", {}); }
        if (auto* x = dyn_cast<StringLiteral>(e)) { json::Array bs; for (unsigned i = 0; i < x->getLength(); i++) bs.push_back((int64_t) x->getCodeUnit(i)); o["bytes"] = std::move(bs); return fin("Str", {}); }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return fin("Null", {});
        if (isa<CXXThisExpr>(e)) return fin("This", {});
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl(); o["n"] = d->getNameAsString();
            if (auto* f = dyn_cast<FunctionDecl>(d)) { o["f"] = fref(f); return fin("FnRef", {}); }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["cv"] = s.str().str(); return fin("Const", {}); }
            o["id"] = id(d); o["qn"] = qname(d);
            if (auto* v = dyn_cast<VarDecl>(d)) if (v->hasGlobalStorage() && !v->isStaticLocal()) { global(v); o["g"] = id(v->getCanonicalDecl()); }
            return fin("Ref", {});
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl(); o["n"] = d->getNameAsString(); o["arrow"] = x->isArrow();
            if (auto* m = dyn_cast<CXXMethodDecl>(d)) { o["f"] = fref(m); return fin("MethodRef", json::Array{expr(x->getBase())}); }
            if (auto* v = dyn_cast<VarDecl>(d)) { global(v); o["g"] = id(v->getCanonicalDecl()); o["id"] = id(v); o["qn"] = qname(v); return fin("Ref", {}); }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["cv"] = s.str().str(); return fin("Const", {}); }
            return fin("Member", json::Array{expr(x->getBase())});
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) { o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); return fin("Unary", json::Array{expr(x->getSubExpr())}); }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) { o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["ct"] = type(x->getComputationResultType()); o["clt"] = type(x->getComputationLHSType()); return fin("CompAssign", json::Array{expr(x->getLHS()), expr(x->getRHS())}); }
        if (auto* x = dyn_cast<BinaryOperator>(e)) { o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); return fin("Binary", json::Array{expr(x->getLHS()), expr(x->getRHS())}); }
        if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) { return fin("Elvis", json::Array{expr(x->getCommon()), expr(x->getFalseExpr())}); }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) return fin("Cond", json::Array{expr(x->getCond()), expr(x->getTrueExpr()), expr(x->getFalseExpr())});
        if (auto* x = dyn_cast<CastExpr>(e)) { o["ck"] = x->getCastKindName(); if (x->getCastKind() == CK_UserDefinedConversion || x->getCastKind() == CK_ConstructorConversion) return expr(x->getSubExpr()); if (isa<ExplicitCastExpr>(x)) o["explicit"] = true; return fin("Cast", json::Array{expr(x->getSubExpr())}); }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) { json::Array as; for (auto* a : x->arguments()) as.push_back(expr(a)); o["oper"] = getOperatorSpelling(x->getOperator()); if (auto* f = x->getDirectCallee()) o["f"] = fref(f); return fin("OpCall", std::move(as)); }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) { json::Array as; as.push_back(expr(x->getImplicitObjectArgument())); for (auto* a : x->arguments()) as.push_back(expr(a)); if (auto* f = x->getMethodDecl()) o["f"] = fref(f); if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) { o["arrow"] = me->isArrow(); o["qual"] = me->hasQualifier(); } else if (auto* b = dyn_cast<BinaryOperator>(x->getCallee()->IgnoreParens())) { o["mp"] = expr(b->getRHS()); o["arrow"] = b->getOpcode() == BO_PtrMemI; } o["ot"] = type(x->getImplicitObjectArgument() ? x->getImplicitObjectArgument()->getType() : C.VoidTy); return fin("MCall", std::move(as)); }
        if (auto* x = dyn_cast<CallExpr>(e)) { json::Array as; auto* f = x->getDirectCallee(); if (f) o["f"] = fref(f); else o["callee"] = expr(x->getCallee()); for (auto* a : x->arguments()) as.push_back(expr(a)); return fin("Call", std::move(as)); }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) { json::Array as; for (auto* a : x->arguments()) as.push_back(expr(a)); o["f"] = fref(x->getConstructor()); o["il"] = x->isStdInitListInitialization(); if (x->requiresZeroInitialization()) o["zi"] = true; return fin("Construct", std::move(as)); }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["f"] = fref(x->getConstructor()); return fin("InhCtor", {}); }
        if (auto* x = dyn_cast<InitListExpr>(e)) { json::Array as; auto* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x); for (auto* a : s->inits()) as.push_back(expr(a)); if (s->hasArrayFiller()) o["filler"] = expr(s->getArrayFiller()); return fin("InitList", std::move(as)); }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["call"] = fkey(x->getCallOperator()); json::Array cs; auto ci = x->capture_begin();
            unsigned i = 0; for (auto* in : x->capture_inits()) { json::Object co; auto& c = *(ci + i); if (c.capturesThis()) co["this"] = true; else if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); } co["ref"] = c.getCaptureKind() == LCK_ByRef; co["e"] = expr(in); cs.push_back(std::move(co)); ++i; }
            o["caps"] = std::move(cs);
            json::Array gi; if (auto* ft = x->getLambdaClass()->getDependentLambdaCallOperator()) { for (auto* sp : ft->specializations()) gi.push_back(fkey(sp)); o["generic"] = std::move(gi);} 
            return fin("Lambda", {}); }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) return fin("Index", json::Array{expr(x->getLHS()), expr(x->getRHS())});
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) return fin("Throw", json::Array{expr(x->getSubExpr())});
        if (auto* x = dyn_cast<CXXNewExpr>(e)) { o["at"] = type(x->getAllocatedType()); o["isarr"] = x->isArray(); json::Array as; if (x->getInitializer()) as.push_back(expr(x->getInitializer())); if (x->getNumPlacementArgs() == 1 && !x->isArray()) o["place"] = expr(x->getPlacementArg(0)); return fin("New", std::move(as)); }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) return fin("Delete", json::Array{expr(x->getArgument())});
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return fin("ValueInit", {});
        if (isa<PredefinedExpr>(e)) return fin("Predef", {});
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
        if (auto* x = dyn_cast<SourceLocExpr>(e)) { (void)x; return fin("SrcLoc", {}); }
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { return fin("ArrayInitLoop", json::Array{expr(x->getCommonExpr())}); }
        o["cls"] = e->getStmtClassName(); return fin("Unsup", {});
    }
    json::Value stmt(const Stmt* s) {
        if (!s) return nul();
        if (auto* e = dyn_cast<Expr>(s)) { json::Object o{{"k", "Expr"}, {"l", line(e->getExprLoc())}}; o["e"] = expr(e); return json::Object(std::move(o)); }
        json::Object o; o["l"] = line(s->getBeginLoc());
        auto fin = [&](const char* k) { o["k"] = k; return json::Value(json::Object(std::move(o))); };
        if (auto* x = dyn_cast<CompoundStmt>(s)) { json::Array c; for (auto* y : x->body()) c.push_back(stmt(y)); o["c"] = std::move(c); return fin("Block"); }
        if (auto* x = dyn_cast<DeclStmt>(s)) { json::Array c; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) c.push_back(var(v)); o["c"] = std::move(c); return fin("Decl"); }
        if (auto* x = dyn_cast<IfStmt>(s)) { if (x->isConstexpr()) { auto nd = x->getNondiscardedCase(C); if (nd) { if (*nd) return stmt(*nd); return fin("Null"); } } o["init"] = stmt(x->getInit()); o["cv"] = x->getConditionVariableDeclStmt() ? stmt(x->getConditionVariableDeclStmt()) : nul(); o["cond"] = expr(x->getCond()); o["then"] = stmt(x->getThen()); o["else"] = stmt(x->getElse()); return fin("If"); }
        if (auto* x = dyn_cast<ForStmt>(s)) { o["init"] = stmt(x->getInit()); o["cv"] = x->getConditionVariableDeclStmt() ? stmt(x->getConditionVariableDeclStmt()) : nul(); o["cond"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody()); return fin("For"); }
        if (auto* x = dyn_cast<WhileStmt>(s)) { o["cv"] = x->getConditionVariableDeclStmt() ? stmt(x->getConditionVariableDeclStmt()) : nul(); o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return fin("While"); }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return fin("Do"); }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { o["range"] = stmt(x->getRangeStmt()); o["begin"] = stmt(x->getBeginStmt()); o["end"] = stmt(x->getEndStmt()); o["cond"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["var"] = stmt(x->getLoopVarStmt()); o["body"] = stmt(x->getBody()); return fin("RangeFor"); }
        if (auto* x = dyn_cast<SwitchStmt>(s)) { o["init"] = stmt(x->getInit()); o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return fin("Switch"); }
        if (auto* x = dyn_cast<CaseStmt>(s)) { o["v"] = expr(x->getLHS()); if (x->getRHS()) o["v2"] = expr(x->getRHS()); o["body"] = stmt(x->getSubStmt()); return fin("Case"); }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["body"] = stmt(x->getSubStmt()); return fin("Default"); }
        if (isa<BreakStmt>(s)) return fin("Break"); if (isa<ContinueStmt>(s)) return fin("Continue"); if (isa<NullStmt>(s)) return fin("Null");
        if (auto* x = dyn_cast<ReturnStmt>(s)) { o["e"] = expr(x->getRetValue()); return fin("Return"); }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) { o["body"] = stmt(x->getTryBlock()); json::Array hs; for (unsigned i = 0; i < x->getNumHandlers(); i++) { auto* h = x->getHandler(i); json::Object ho; if (h->getExceptionDecl()) { ho["id"] = id(h->getExceptionDecl()); ho["t"] = type(h->getCaughtType()); } ho["body"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); } o["h"] = std::move(hs); return fin("Try"); }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<GotoStmt>(s)) { o["label"] = x->getLabel()->getName(); return fin("Goto"); }
        if (auto* x = dyn_cast<LabelStmt>(s)) { o["label"] = x->getName(); o["body"] = stmt(x->getSubStmt()); return fin("Label"); }
        o["cls"] = s->getStmtClassName(); return fin("UnsupS");
    }
};
struct Finder : RecursiveASTVisitor<Finder> {
    Dumper& D; bool shouldVisitTemplateInstantiations() const { return true; } bool shouldVisitImplicitCode() const { return false; }
    Finder(Dumper& d) : D(d) {}
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isDependentContext() || f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
        if (!D.inRepo(f)) return true; std::string q = D.qname(f); if (matchName(q)) { D.roots.push_back(D.fkey(f)); } return true; }
};
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        Dumper D(C); Finder F(D); F.TraverseDecl(C.getTranslationUnitDecl());
        std::set<std::string> dd; json::Array ra; for (auto& r : D.roots) { auto s = r.getAsString()->str(); if (dd.insert(s).second) ra.push_back(s); }
        while (!D.work.empty()) { auto* f = D.work.front(); D.work.pop_front(); D.emitFn(f); }
        json::Object o; o["roots"] = std::move(ra); o["funcs"] = std::move(D.funcs); o["types"] = std::move(D.types); o["records"] = std::move(D.records); o["globals"] = std::move(D.globals);
        o["errors"] = (int64_t) C.getDiagnostics().hasErrorOccurred();
        std::error_code ec; llvm::raw_fd_ostream os(g_out, ec); os << json::Value(std::move(o)); 
    }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(); } };
int main(int argc, char** argv) {
    std::vector<std::string> cmd; std::string src; int i = 1;
    for (; i < argc; i++) { std::string a = argv[i]; if (a == "--") { i++; break; }
        if (a == "--root") g_root = argv[++i]; else if (a == "--out") g_out = argv[++i];
        else if (a == "--want") { std::string s = argv[++i], c; for (char ch : s) if (ch == ',') { g_want.push_back(c); c.clear(); } else c += ch; if (!c.empty()) g_want.push_back(c); }
        else src = a; }
    cmd = {"clang++", "-fsyntax-only"}; for (; i < argc; i++) cmd.push_back(argv[i]); cmd.push_back("-resource-dir"); cmd.push_back("/usr/lib/llvm-18/lib/clang/18"); cmd.push_back(src);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(cmd, std::make_unique<Action>(), FM.get());
    bool ok = inv.run(); return ok ? 0 : 3;
}
