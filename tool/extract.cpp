// Fact extractor: parses translation units with the real build's flags and writes, as JSON lines,
// the type-checked program (functions with resolved expression trees, classes, enums, variables).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;   // repository root
static std::unordered_set<std::string> gSeen;
static llvm::raw_fd_ostream* gOut;
static unsigned gErrors = 0;

namespace {

struct Ext {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::unordered_map<const Decl*, std::string> idCache;
    std::unordered_map<const Decl*, int> localIds;
    std::unordered_map<const Type*, std::string> typeCache;

    Ext(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), MC(c.createMangleContext()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = false;
    }

    std::string ty(QualType q) {
        if (q.isNull()) return "";
        return q.getCanonicalType().getAsString(PP);
    }

    std::string fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return "";
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (!fe) return "";
        llvm::SmallString<256> p(fe->getName());
        StringRef rp = fe->getFileEntry().tryGetRealPathName();
        return rp.empty() ? std::string(p.str()) : rp.str();
    }
    bool inRepo(SourceLocation l) {
        std::string f = fileOf(l);
        return f.size() > gRoot.size() && f.compare(0, gRoot.size(), gRoot) == 0;
    }
    std::string rel(SourceLocation l) {
        std::string f = fileOf(l);
        if (f.size() > gRoot.size() && f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size() + 1);
        return f;
    }
    int line(SourceLocation l) { l = SM.getExpansionLoc(l); return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }
    int col(SourceLocation l) { l = SM.getExpansionLoc(l); return l.isInvalid() ? 0 : (int)SM.getExpansionColumnNumber(l); }

    std::string qn(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        // print with template args of enclosing classes
        if (auto* rd = dyn_cast<CXXRecordDecl>(d)) {
            if (rd->getDescribedClassTemplate() == nullptr || isa<ClassTemplateSpecializationDecl>(rd)) {
                return QualType(rd->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
            }
        }
        if (auto* ctx = dyn_cast<CXXRecordDecl>(d->getDeclContext())) {
            if (!ctx->isDependentContext()) {
                std::string n = d->getNameAsString();
                if (isa<CXXConstructorDecl>(d)) n = ctx->getNameAsString();
                else if (isa<CXXDestructorDecl>(d)) n = "~" + ctx->getNameAsString();
                return QualType(ctx->getTypeForDecl(), 0).getCanonicalType().getAsString(PP) + "::" + n;
            }
        }
        d->printQualifiedName(os, PP);
        return os.str();
    }

    std::string fid(const FunctionDecl* fd) {
        fd = fd->getCanonicalDecl();
        auto it = idCache.find(fd);
        if (it != idCache.end()) return it->second;
        std::string s;
        if (fd->isDependentContext() || isa<CXXDeductionGuideDecl>(fd)) {
            s = "dep:" + qn(fd) + "@" + rel(fd->getLocation()) + ":" + std::to_string(line(fd->getLocation()));
        } else {
            llvm::raw_string_ostream os(s);
            GlobalDecl gd;
            if (auto* c = dyn_cast<CXXConstructorDecl>(fd)) gd = GlobalDecl(c, Ctor_Complete);
            else if (auto* d = dyn_cast<CXXDestructorDecl>(fd)) gd = GlobalDecl(d, Dtor_Complete);
            else gd = GlobalDecl(fd);
            if (MC->shouldMangleDeclName(fd)) MC->mangleName(gd, os);
            else os << "C:" << fd->getNameAsString();
            os.flush();
            // internal linkage functions are distinguished by file
            if (fd->getFormalLinkage() == Linkage::Internal || fd->isInAnonymousNamespace())
                s += "@" + rel(fd->getLocation());
            if (auto* m = dyn_cast<CXXMethodDecl>(fd))
                if (m->getParent()->isLambda()) s += "@L" + std::to_string(line(fd->getLocation())) + ":" + std::to_string(col(fd->getLocation()));
        }
        idCache[fd] = s;
        return s;
    }

    int lid(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = localIds.find(d);
        if (it != localIds.end()) return it->second;
        int n = (int)localIds.size() + 1;
        localIds[d] = n;
        return n;
    }

    json::Object callee(const FunctionDecl* fd) {
        json::Object o;
        o["id"] = fid(fd);
        o["q"] = qn(fd);
        if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            o["c"] = QualType(m->getParent()->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
            if (m->isVirtual()) o["v"] = 1;
            if (m->isStatic()) o["s"] = 1;
            if (m->isConst()) o["k"] = 1;
        }
        if (fd->getPrimaryTemplate()) {
            if (auto* ta = fd->getTemplateSpecializationArgs()) {
                json::Array a;
                for (auto& x : ta->asArray()) {
                    std::string s; llvm::raw_string_ostream os(s);
                    x.print(PP, os, true);
                    a.push_back(os.str());
                }
                o["ta"] = std::move(a);
            }
        }
        json::Array ps;
        for (auto* p : fd->parameters()) ps.push_back(ty(p->getType()));
        o["p"] = std::move(ps);
        return o;
    }

    const Expr* strip(const Expr* e) {
        while (e) {
            if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
                switch (p->getCastKind()) {
                case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion:
                case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
                    e = p->getSubExpr(); continue;
                default: break;
                }
            }
            break;
        }
        return e;
    }

    json::Value ex(const Expr* e0) {
        const Expr* e = strip(e0);
        if (!e) return nullptr;
        json::Object o = ex1(e);
        if (!o.get("t")) o["t"] = ty(e->getType());
        o["l"] = line(e->getBeginLoc());
        SourceLocation b = e->getExprLoc();
        if (b.isMacroID()) {
            o["m"] = Lexer::getImmediateMacroName(b, SM, C.getLangOpts()).str();
            // outermost macro
            SourceLocation x = b;
            while (x.isMacroID()) {
                SourceLocation up = SM.getImmediateExpansionRange(x).getBegin();
                if (!up.isMacroID()) { o["M"] = Lexer::getImmediateMacroName(x, SM, C.getLangOpts()).str(); break; }
                x = up;
            }
        }
        // constant value
        if (!e->isTypeDependent() && !e->isValueDependent() && e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !o.get("v")) {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
                llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
                o["v"] = json::Value(std::stod(std::string(s.str())) < 9e15 && std::stod(std::string(s.str())) > -9e15 ? json::Value((int64_t)r.Val.getInt().getExtValue()) : json::Value(std::string(s.str())));
            }
        }
        return o;
    }

    json::Array args(CallExpr::const_arg_range r) {
        json::Array a;
        for (auto* x : r) a.push_back(ex(x));
        return a;
    }

    json::Object ex1(const Expr* e) {
        json::Object o;
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
            json::Value v = ex(x->getExpr());
            if (auto* ob = v.getAsObject()) { (*ob)["dflt"] = 1; return std::move(*ob); }
            o["k"] = "?"; return o;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "Int"; return o; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = (int64_t)x->getValue(); return o; }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Chr"; o["v"] = (int64_t)x->getValue(); return o; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "Flt"; llvm::SmallString<32> s; x->getValue().toString(s); o["f"] = std::string(s.str()); return o; }
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "Str";
            std::string s;
            if (x->getCharByteWidth() == 1) s = x->getBytes().str(); else for (unsigned i = 0; i < x->getLength(); ++i) s += (char)x->getCodeUnit(i);
            o["s"] = json::isUTF8(s) ? s : json::fixUTF8(s);
            o["n"] = (int64_t)x->getLength();
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "This"; return o; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            o["k"] = "Ref";
            o["n"] = d->getNameAsString();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum"; o["q"] = qn(ec);
                o["v"] = (int64_t)ec->getInitVal().getExtValue();
            } else if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "fn"; o["cal"] = callee(fd);
            } else if (auto* pv = dyn_cast<ParmVarDecl>(d)) {
                o["dk"] = "parm"; o["d"] = lid(pv);
            } else if (auto* vd = dyn_cast<VarDecl>(d)) {
                if (vd->isLocalVarDecl() && !vd->isStaticLocal()) { o["dk"] = "var"; o["d"] = lid(vd); }
                else { o["dk"] = "glob"; o["q"] = qn(vd); if (vd->isStaticLocal()) { o["d"] = lid(vd); o["sl"] = 1; } }
            } else if (isa<BindingDecl>(d)) { o["dk"] = "var"; o["d"] = lid(d); }
            else { o["dk"] = "other"; }
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            o["k"] = "Mem";
            const ValueDecl* d = x->getMemberDecl();
            o["n"] = d->getNameAsString();
            if (auto* fd = dyn_cast<FieldDecl>(d)) {
                o["c"] = QualType(fd->getParent()->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
                o["dk"] = "field";
                if (!fd->getParent()->isUnion()) o["fi"] = (int)fd->getFieldIndex();
            } else if (auto* vd = dyn_cast<VarDecl>(d)) { o["dk"] = "glob"; o["q"] = qn(vd); }
            else if (auto* md = dyn_cast<CXXMethodDecl>(d)) { o["dk"] = "fn"; o["cal"] = callee(md); }
            o["b"] = ex(x->getBase());
            if (x->isArrow()) o["a"] = 1;
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "Call";
            if (auto* md = x->getMethodDecl()) o["cal"] = callee(md);
            if (auto* im = x->getImplicitObjectArgument()) o["obj"] = ex(im);
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                if (me->isArrow()) o["a"] = 1;
                if (me->hasQualifier()) o["qual"] = 1;
            }
            if (!x->getMethodDecl()) o["fe"] = ex(x->getCallee());
            o["args"] = args(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "Call";
            o["op"] = getOperatorSpelling(x->getOperator());
            const FunctionDecl* fd = x->getDirectCallee();
            unsigned start = 0;
            if (fd) {
                o["cal"] = callee(fd);
                if (auto* m = dyn_cast<CXXMethodDecl>(fd); m && !m->isStatic() && x->getNumArgs() > 0) { o["obj"] = ex(x->getArg(0)); start = 1; }
            }
            json::Array a;
            for (unsigned i = start; i < x->getNumArgs(); ++i) a.push_back(ex(x->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "Call";
            if (auto* fd = x->getDirectCallee()) o["cal"] = callee(fd);
            else o["fe"] = ex(x->getCallee());
            o["args"] = args(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            // elidable copy/move of a temporary: look through
            if (x->isElidable() && x->getNumArgs() >= 1) { json::Value v = ex(x->getArg(0)); if (auto* ob = v.getAsObject()) return std::move(*ob); }
            o["k"] = "Ctor";
            o["cal"] = callee(x->getConstructor());
            if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
            json::Array a;
            for (auto* y : x->arguments()) a.push_back(ex(y));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "Ctor"; o["cal"] = callee(x->getConstructor()); o["args"] = json::Array(); return o; }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["L"] = ex(x->getLHS()); o["R"] = ex(x->getRHS()); return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["L"] = ex(x->getLHS()); o["R"] = ex(x->getRHS()); return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = 1; o["e"] = ex(x->getSubExpr()); return o;
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "Cond"; o["c"] = ex(x->getCond()); o["T"] = ex(x->getTrueExpr()); o["F"] = ex(x->getFalseExpr()); return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "Idx"; o["b"] = ex(x->getBase()); o["i"] = ex(x->getIdx()); return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "New"; o["nt"] = ty(x->getAllocatedType());
            if (x->isArray() && x->getArraySize() && *x->getArraySize()) o["n"] = ex(*x->getArraySize());
            if (x->isArray()) o["arr"] = 1;
            if (x->getInitializer()) o["init"] = ex(x->getInitializer());
            else if (x->getConstructExpr()) o["init"] = ex(x->getConstructExpr());
            if (x->getNumPlacementArgs()) { json::Array a; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) a.push_back(ex(x->getPlacementArg(i))); o["pl"] = std::move(a); }
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "Del"; o["e"] = ex(x->getArgument()); if (x->isArrayForm()) o["arr"] = 1;
            o["dt"] = ty(x->getDestroyedType());
            return o;
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            o["k"] = "Cast"; o["ck"] = x->getCastKindName();
            if (auto* y = dyn_cast<ExplicitCastExpr>(e)) {
                o["ex"] = 1;
                if (isa<CXXStaticCastExpr>(y)) o["cs"] = "static"; else if (isa<CXXDynamicCastExpr>(y)) o["cs"] = "dynamic";
                else if (isa<CXXReinterpretCastExpr>(y)) o["cs"] = "reinterpret"; else if (isa<CXXConstCastExpr>(y)) o["cs"] = "const";
                else o["cs"] = "c";
            }
            o["e"] = ex(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "Sizeof"; o["at"] = ty(x->getTypeOfArgument()); return o; }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            o["k"] = "List"; json::Array a;
            const InitListExpr* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            for (auto* y : s->inits()) a.push_back(ex(y));
            o["e"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<ParenListExpr>(e)) { o["k"] = "List"; json::Array a; for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(ex(x->getExpr(i))); o["e"] = std::move(a); return o; }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "Zero"; return o; }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "Lambda"; o["cal"] = callee(x->getCallOperator());
            json::Array ps; for (auto* p : x->getCallOperator()->parameters()) ps.push_back(json::Object{{"n", p->getNameAsString()}, {"d", lid(p)}, {"t", ty(p->getType())}});
            o["params"] = std::move(ps);
            o["body"] = st(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "Throw"; if (x->getSubExpr()) o["e"] = ex(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { json::Value v = ex(x->getSourceExpr()); if (auto* ob = v.getAsObject()) return std::move(*ob);} o["k"] = "?"; return o; }
        if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { o["k"] = "PDtor"; o["e"] = ex(x->getBase()); return o; }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "Typeid"; return o; }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "Str"; o["s"] = "__func__"; return o; }
        // generic
        o["k"] = "?"; o["sk"] = e->getStmtClassName();
        json::Array a;
        for (auto* c : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce));
        o["e"] = std::move(a);
        return o;
    }

    json::Value decl1(const VarDecl* vd) {
        json::Object o;
        o["n"] = vd->getNameAsString(); o["d"] = lid(vd); o["t"] = ty(vd->getType()); o["l"] = line(vd->getLocation());
        if (vd->isStaticLocal()) { o["static"] = 1; o["q"] = qn(vd); }
        if (vd->getInit()) o["init"] = ex(vd->getInit());
        if (auto* rd = vd->getType()->getAsCXXRecordDecl(); rd && rd->hasDefinition() && !rd->hasTrivialDestructor()) o["dtor"] = 1;
        return o;
    }

    json::Value st(const Stmt* s) {
        if (!s) return nullptr;
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        SourceLocation sb = s->getBeginLoc();
        if (sb.isMacroID()) {
            SourceLocation x = sb;
            while (x.isMacroID()) {
                SourceLocation up = SM.getImmediateExpansionRange(x).getBegin();
                if (!up.isMacroID()) { o["M"] = Lexer::getImmediateMacroName(x, SM, C.getLangOpts()).str(); break; }
                x = up;
            }
        }
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "Block"; json::Array a; for (auto* y : x->body()) a.push_back(st(y)); o["s"] = std::move(a);
            o["el"] = line(x->getRBracLoc());
            return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            o["k"] = "If"; if (x->getInit()) o["init"] = st(x->getInit());
            if (x->getConditionVariable()) o["cv"] = decl1(x->getConditionVariable());
            o["c"] = ex(x->getCond()); o["T"] = st(x->getThen()); if (x->getElse()) o["F"] = st(x->getElse());
            if (x->isConstexpr()) o["constexpr"] = 1;
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "For"; if (x->getInit()) o["init"] = st(x->getInit());
            if (x->getConditionVariable()) o["cv"] = decl1(x->getConditionVariable());
            if (x->getCond()) o["c"] = ex(x->getCond()); if (x->getInc()) o["inc"] = ex(x->getInc()); o["b"] = st(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "While"; if (x->getConditionVariable()) o["cv"] = decl1(x->getConditionVariable());
            o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "Range"; o["var"] = decl1(x->getLoopVariable()); o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "Switch"; if (x->getInit()) o["init"] = st(x->getInit());
            if (x->getConditionVariable()) o["cv"] = decl1(x->getConditionVariable());
            o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "Case"; o["e"] = ex(x->getLHS());
            Expr::EvalResult r;
            if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getExtValue();
            if (x->getRHS()) o["e2"] = ex(x->getRHS());
            o["s"] = st(x->getSubStmt()); return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["s"] = st(x->getSubStmt()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "Break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return o; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (x->getRetValue()) o["e"] = ex(x->getRetValue()); return o; }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "Decl"; json::Array a;
            for (auto* d : x->decls()) if (auto* vd = dyn_cast<VarDecl>(d)) a.push_back(decl1(vd));
            o["d"] = std::move(a); return o;
        }
        if (isa<NullStmt>(s)) { o["k"] = "Nop"; return o; }
        if (auto* x = dyn_cast<GotoStmt>(s)) { o["k"] = "Goto"; o["n"] = x->getLabel()->getNameAsString(); return o; }
        if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "Label"; o["n"] = x->getDecl()->getNameAsString(); o["s"] = st(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "Try"; o["b"] = st(x->getTryBlock()); json::Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto* h = x->getHandler(i); json::Object ho; ho["t"] = h->getExceptionDecl() ? ty(h->getCaughtType()) : "..."; ho["b"] = st(h->getHandlerBlock()); ho["l"] = line(h->getBeginLoc()); a.push_back(std::move(ho)); }
            o["h"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<AttributedStmt>(s)) { json::Value v = st(x->getSubStmt()); if (auto* ob = v.getAsObject()) return std::move(*ob); }
        if (auto* x = dyn_cast<Expr>(s)) { o["k"] = "Expr"; o["e"] = ex(x); return o; }
        if (isa<AsmStmt>(s)) { o["k"] = "Asm"; return o; }
        o["k"] = "?"; o["sk"] = s->getStmtClassName();
        return o;
    }

    void emit(json::Object o) {
        json::Value v(std::move(o));
        *gOut << v << "\n";
    }

    void doFunction(const FunctionDecl* fd) {
        if (!fd->doesThisDeclarationHaveABody() && !(fd->isDefaulted() && fd->hasBody())) return;
        if (fd->isDependentContext()) return;
        if (!inRepo(fd->getLocation())) return;
        if (fd->isInvalidDecl()) return;
        std::string id = fid(fd);
        if (!gSeen.insert("F" + id).second) return;
        localIds.clear();
        json::Object o;
        o["k"] = "fn"; o["id"] = id; o["q"] = qn(fd); o["n"] = fd->getNameAsString();
        o["file"] = rel(fd->getLocation()); o["l"] = line(fd->getBeginLoc()); o["el"] = line(fd->getEndLoc());
        o["ret"] = ty(fd->getReturnType());
        json::Array ps;
        for (auto* p : fd->parameters()) ps.push_back(json::Object{{"n", p->getNameAsString()}, {"d", lid(p)}, {"t", ty(p->getType())}});
        o["params"] = std::move(ps);
        if (fd->getTemplateInstantiationPattern()) {
            auto* pat = fd->getTemplateInstantiationPattern();
            o["tp"] = rel(pat->getLocation()) + ":" + std::to_string(line(pat->getLocation()));
            std::string pq; { llvm::raw_string_ostream os(pq); pat->printQualifiedName(os, PP); }
            o["tq"] = pq;
        }
        if (fd->getPrimaryTemplate()) if (auto* ta = fd->getTemplateSpecializationArgs()) {
            json::Array a; for (auto& x : ta->asArray()) { std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, true); a.push_back(os.str()); }
            o["ta"] = std::move(a);
        }
        if (fd->isVariadic()) o["va"] = 1;
        if (fd->isImplicit()) o["implicit"] = 1;
        if (fd->isDefaulted()) o["defaulted"] = 1;
        if (fd->getFormalLinkage() == Linkage::Internal) o["internal"] = 1;
        if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = QualType(m->getParent()->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
            if (m->isVirtual()) o["virt"] = 1;
            if (m->isStatic()) o["static"] = 1;
            if (m->isConst()) o["const"] = 1;
            o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
            if (!ov.empty()) o["ov"] = std::move(ov);
            if (isa<CXXDestructorDecl>(m)) o["kind"] = "dtor";
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                o["kind"] = "ctor";
                if (c->isCopyConstructor()) o["copyctor"] = 1;
                if (c->isMoveConstructor()) o["movector"] = 1;
                json::Array ia;
                for (auto* in : c->inits()) {
                    json::Object io;
                    if (in->isAnyMemberInitializer()) { io["f"] = in->getAnyMember()->getNameAsString(); }
                    else if (in->isBaseInitializer()) io["base"] = ty(QualType(in->getBaseClass(), 0));
                    else if (in->isDelegatingInitializer()) io["deleg"] = 1;
                    if (in->isWritten()) io["w"] = 1;
                    io["e"] = ex(in->getInit());
                    io["l"] = line(in->getSourceLocation());
                    ia.push_back(std::move(io));
                }
                o["inits"] = std::move(ia);
            }
        }
        o["body"] = st(fd->getBody());
        emit(std::move(o));
    }

    void doRecord(const CXXRecordDecl* rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isInvalidDecl()) return;
        if (!inRepo(rd->getLocation())) return;
        if (rd->isLambda()) return;
        std::string q = qn(rd);
        if (!gSeen.insert("C" + q + "@" + rel(rd->getLocation())).second) return;
        json::Object o;
        o["k"] = "cls"; o["q"] = q; o["file"] = rel(rd->getLocation()); o["l"] = line(rd->getLocation()); o["n"] = rd->getNameAsString();
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
            std::string s; llvm::raw_string_ostream os(s); sp->getSpecializedTemplate()->printQualifiedName(os, PP); o["tq"] = os.str();
            json::Array a; for (auto& x : sp->getTemplateArgs().asArray()) { std::string t; llvm::raw_string_ostream o2(t); x.print(PP, o2, true); a.push_back(o2.str()); }
            o["ta"] = std::move(a);
        }
        json::Array bs;
        for (auto& b : rd->bases()) bs.push_back(json::Object{{"q", ty(b.getType())}, {"virt", b.isVirtual()}, {"acc", b.getAccessSpecifier() == AS_public ? "public" : "other"}});
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f : rd->fields()) {
            json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); fo["ts"] = f->getType().getAsString(PP); fo["l"] = line(f->getLocation());
            if (f->isMutable()) fo["mut"] = 1;
            if (f->hasInClassInitializer()) { fo["ini"] = 1; if (f->getInClassInitializer()) fo["inie"] = ex(f->getInClassInitializer()); }
            QualType t = f->getType();
            if (t->isPointerType()) fo["ptr"] = 1;
            if (t->isScalarType()) fo["scalar"] = 1;
            if (auto* frd = t->getAsCXXRecordDecl(); frd && frd->hasDefinition()) { if (frd->hasUserProvidedDefaultConstructor()) fo["udc"] = 1; fo["rec"] = 1; }
            fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* m : rd->methods()) {
            json::Object mo; mo["id"] = fid(m); mo["n"] = m->getNameAsString(); mo["q"] = qn(m); mo["ret"] = ty(m->getReturnType()); mo["l"] = line(m->getLocation());
            json::Array ps; for (auto* p : m->parameters()) ps.push_back(ty(p->getType())); mo["p"] = std::move(ps);
            if (m->isVirtual()) mo["virt"] = 1; if (m->isPureVirtual()) mo["pure"] = 1; if (m->isConst()) mo["const"] = 1; if (m->isStatic()) mo["static"] = 1;
            if (m->isImplicit()) mo["implicit"] = 1; if (m->isDefaulted()) mo["dflt"] = 1; if (m->isDeleted()) mo["del"] = 1;
            if (isa<CXXDestructorDecl>(m)) mo["kind"] = "dtor";
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { mo["kind"] = "ctor"; if (c->isCopyConstructor()) mo["copyctor"] = 1; if (c->isMoveConstructor()) mo["movector"] = 1; }
            if (m->isCopyAssignmentOperator()) mo["copyasg"] = 1;
            mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fid(b)); if (!ov.empty()) mo["ov"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        if (rd->isAbstract()) o["abstract"] = 1;
        if (rd->isPolymorphic()) o["poly"] = 1;
        if (rd->isUnion()) o["union"] = 1;
        if (auto* d = rd->getDestructor()) { if (d->isVirtual()) o["vdtor"] = 1; }
        if (rd->hasTrivialDestructor()) o["tdtor"] = 1;
        if (rd->needsImplicitCopyConstructor()) o["icopy"] = 1;
        if (rd->needsImplicitCopyAssignment()) o["iassign"] = 1;
        if (rd->hasTrivialCopyConstructor()) o["tcopy"] = 1;
        if (rd->hasUserDeclaredCopyConstructor()) o["udcopy"] = 1;
        if (rd->hasUserDeclaredCopyAssignment()) o["udassign"] = 1;
        emit(std::move(o));
    }

    void doEnum(const EnumDecl* ed) {
        if (!ed->isThisDeclarationADefinition() || ed->isDependentContext()) return;
        if (!inRepo(ed->getLocation())) return;
        std::string q = QualType(ed->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
        if (!gSeen.insert("E" + q + "@" + rel(ed->getLocation()) + std::to_string(line(ed->getLocation()))).second) return;
        json::Object o; o["k"] = "enum"; o["q"] = q; o["file"] = rel(ed->getLocation()); o["l"] = line(ed->getLocation());
        json::Array a; for (auto* e : ed->enumerators()) a.push_back(json::Object{{"n", e->getNameAsString()}, {"v", (int64_t)e->getInitVal().getExtValue()}, {"l", line(e->getLocation())}});
        o["e"] = std::move(a);
        emit(std::move(o));
    }

    void doVar(const VarDecl* vd) {
        if (!vd->hasGlobalStorage() || vd->isStaticLocal() || vd->getType()->isDependentType() || vd->isInvalidDecl()) return;
        if (vd->getDeclContext()->isDependentContext()) return;
        if (!inRepo(vd->getLocation())) return;
        if (vd->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !vd->getInit()) return;
        std::string q = qn(vd);
        std::string key = "V" + q;
        if (vd->getFormalLinkage() == Linkage::Internal) key += "@" + rel(vd->getLocation());
        if (!gSeen.insert(key).second) return;
        localIds.clear();
        json::Object o; o["k"] = "var"; o["q"] = q; o["n"] = vd->getNameAsString(); o["file"] = rel(vd->getLocation()); o["l"] = line(vd->getLocation()); o["t"] = ty(vd->getType());
        if (vd->getInit() && !vd->getInit()->isValueDependent()) o["init"] = ex(vd->getInit());
        emit(std::move(o));
    }
};

struct Vis : RecursiveASTVisitor<Vis> {
    Ext& E;
    Vis(Ext& e) : E(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* fd) { E.doFunction(fd); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* rd) { E.doRecord(rd); return true; }
    bool VisitEnumDecl(EnumDecl* ed) { E.doEnum(ed); return true; }
    bool VisitVarDecl(VarDecl* vd) { E.doVar(vd); return true; }
};

struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { ++gErrors; return; }
        Ext E(C);
        Vis V(E);
        V.TraverseDecl(C.getTranslationUnitDecl());
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};

}

// usage: extract ROOT OUT FILES... -- FLAGS
int main(int argc, const char** argv) {
    if (argc < 4) return 2;
    gRoot = argv[1];
    std::error_code ec;
    llvm::raw_fd_ostream out(argv[2], ec);
    if (ec) return 2;
    gOut = &out;
    std::vector<std::string> files, flags;
    bool fl = false;
    for (int i = 3; i < argc; ++i) {
        if (std::string(argv[i]) == "--") { fl = true; continue; }
        (fl ? flags : files).push_back(argv[i]);
    }
    tooling::FixedCompilationDatabase db(gRoot, flags);
    tooling::ClangTool tool(db, files);
    int r = tool.run(tooling::newFrontendActionFactory<Act>().get());
    out.flush();
    if (r || gErrors) { llvm::errs() << "extract: parse errors in " << gErrors << " units\n"; return 3; }
    return 0;
}
