// factdump: parse one translation unit with clang and write, as JSON, the resolved program it contains for
// everything defined below a given source root: functions (AST nodes with resolved references, clang CFG with
// implicit destructors), classes (bases, fields, record layout), enumerations and global initialisers.
//
// usage: factdump <root> <out.json> -- <compiler command...>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"

using namespace clang;

static std::string gRoot;
static std::string gOut;

static std::string esc(llvm::StringRef s) {
    std::string r;
    r.reserve(s.size() + 2);
    r += '"';
    for (unsigned char c : s) {
        switch (c) {
            case '"':
                r += "\\\"";
                break;
            case '\\':
                r += "\\\\";
                break;
            case '\n':
                r += "\\n";
                break;
            case '\t':
                r += "\\t";
                break;
            case '\r':
                r += "\\r";
                break;
            default:
                if (c < 0x20 || c >= 0x7f) {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                }
                else
                    r += c;
        }
    }
    r += '"';
    return r;
}

struct Ctx {
    ASTContext& ac;
    SourceManager& sm;
    PrintingPolicy pp;
    std::map<const Decl*, std::string> idCache;
    std::map<FileID, std::string> fileCache;

    explicit Ctx(ASTContext& a) : ac(a), sm(a.getSourceManager()), pp(a.getLangOpts()) {
        pp.SuppressTagKeyword = true;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
        pp.Bool = true;
        pp.AnonymousTagLocations = false;
        pp.SuppressUnwrittenScope = false;
    }

    std::string fileOf(SourceLocation l) {
        if (l.isInvalid())
            return "";
        l = sm.getExpansionLoc(l);
        FileID f = sm.getFileID(l);
        auto it = fileCache.find(f);
        if (it != fileCache.end())
            return it->second;
        std::string r;
        if (auto fe = sm.getFileEntryRefForID(f)) {
            llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
            r = rp.empty() ? fe->getName().str() : rp.str();
        }
        return fileCache[f] = r;
    }
    bool inRoot(SourceLocation l) {
        std::string f = fileOf(l);
        return f.compare(0, gRoot.size(), gRoot) == 0;
    }
    unsigned line(SourceLocation l) { return l.isInvalid() ? 0 : sm.getExpansionLineNumber(l); }
    unsigned col(SourceLocation l) { return l.isInvalid() ? 0 : sm.getExpansionColumnNumber(l); }

    std::string ty(QualType t) {
        if (t.isNull())
            return "";
        return t.getCanonicalType().getAsString(pp);
    }

    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto* r = dyn_cast<CXXRecordDecl>(d)) {
            if (r->isLambda()) {
                std::ostringstream o;
                o << "(lambda@" << relFile(r->getLocation()) << ":" << line(r->getLocation()) << ":"
                  << col(r->getLocation()) << ")";
                // one per instantiation of the function around it
                if (auto* f = dyn_cast<FunctionDecl>(r->getDeclContext())) {
                    bool inst = f->isTemplateInstantiation();
                    if (auto* m = dyn_cast<CXXMethodDecl>(f))
                        inst = inst || isa<ClassTemplateSpecializationDecl>(m->getParent()) ||
                               (m->getParent()->isLambda() && qname(m->getParent()).find('#') != std::string::npos);
                    if (inst) {
                        char b[20];
                        snprintf(b, sizeof b, "#%08x", (unsigned)std::hash<std::string>()(fid(f)));
                        o << b;
                    }
                }
                return o.str();
            }
        }
        d->printQualifiedName(os, pp);
        os.flush();
        return s;
    }
    std::string relFile(SourceLocation l) {
        std::string f = fileOf(l);
        if (f.compare(0, gRoot.size(), gRoot) == 0) {
            f = f.substr(gRoot.size());
            if (!f.empty() && f[0] == '/')
                f = f.substr(1);
        }
        return f;
    }

    const FunctionDecl* canonFn(const FunctionDecl* f) { return f->getCanonicalDecl(); }

    std::string clsId(const CXXRecordDecl* r) {
        if (!r)
            return "";
        if (r->isLambda())
            return qname(r);
        return ty(ac.getRecordType(r));
    }

    // Stable identity of a function across translation units
    std::string fid(const FunctionDecl* f) {
        if (!f)
            return "";
        f = canonFn(f);
        auto it = idCache.find(f);
        if (it != idCache.end())
            return it->second;
        std::ostringstream o;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o << clsId(m->getParent()) << "::";
            if (isa<CXXConstructorDecl>(m))
                o << "<ctor>";
            else if (isa<CXXDestructorDecl>(m))
                o << "<dtor>";
            else
                o << m->getDeclName().getAsString();
        }
        else {
            o << qname(f);
            if (!f->isExternallyVisible())
                o << "@" << relFile(f->getLocation());
        }
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            o << "<";
            bool first = true;
            for (auto& a : ta->asArray()) {
                if (!first)
                    o << ",";
                first = false;
                std::string s;
                llvm::raw_string_ostream os(s);
                const CXXRecordDecl* lam = nullptr;
                if (a.getKind() == TemplateArgument::Type)
                    lam = a.getAsType().getNonReferenceType()->getAsCXXRecordDecl();
                if (lam && lam->isLambda())
                    os << qname(lam);
                else
                    a.print(pp, os, true);
                o << os.str();
            }
            o << ">";
        }
        o << "(";
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first)
                o << ",";
            first = false;
            o << ty(p->getType());
        }
        if (f->isVariadic())
            o << ",...";
        o << ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->isConst())
                o << "const";
        std::string r = o.str();
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            // methods of local classes: add location to be unique
            if (m->getParent()->isLocalClass() && !m->getParent()->isLambda())
                r += "@" + relFile(m->getLocation()) + ":" + std::to_string(line(m->getLocation()));
        }
        return idCache[f] = r;
    }
    // the qualified name without template arguments of the function itself
    std::string fqname(const FunctionDecl* f) {
        if (!f)
            return "";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            std::string c;
            if (m->getParent()->isLambda())
                c = qname(m->getParent());
            else {
                llvm::raw_string_ostream os(c);
                m->getParent()->printQualifiedName(os, pp);
                os.flush();
            }
            if (isa<CXXConstructorDecl>(m))
                return c + "::<ctor>";
            if (isa<CXXDestructorDecl>(m))
                return c + "::<dtor>";
            return c + "::" + m->getDeclName().getAsString();
        }
        return qname(f);
    }
    std::string declId(const ValueDecl* d) {
        std::ostringstream o;
        o << d->getDeclName().getAsString() << "@" << line(d->getLocation()) << ":" << col(d->getLocation());
        if (auto* p = dyn_cast<ParmVarDecl>(d))
            if (auto* f = dyn_cast_or_null<FunctionDecl>(p->getDeclContext()))
                if (p->getFunctionScopeIndex() && f->getParamDecl(p->getFunctionScopeIndex() - 1)->getLocation() == p->getLocation())
                    o << "+" << p->getFunctionScopeIndex();  // an element of a parameter pack
        return o.str();
    }
};

// ---------------------------------------------------------------------------------------------------------------

struct FnDump {
    Ctx& c;
    std::vector<std::string> nodes;
    std::unordered_map<const Stmt*, int> ids;
    std::vector<const LambdaExpr*> lambdas;

    explicit FnDump(Ctx& cc) : c(cc) {}

    static const Stmt* strip(const Stmt* s) {
        while (s) {
            if (auto* e = dyn_cast<ParenExpr>(s))
                s = e->getSubExpr();
            else if (auto* e = dyn_cast<ImplicitCastExpr>(s))
                s = e->getSubExpr();
            else if (auto* e = dyn_cast<ExprWithCleanups>(s))
                s = e->getSubExpr();
            else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s))
                s = e->getSubExpr();
            else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s))
                s = e->getSubExpr();
            else if (auto* e = dyn_cast<ConstantExpr>(s))
                s = e->getSubExpr();
            else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
                s = e->getReplacement();
            else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s))
                s = e->getExpr();
            else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s))
                s = e->getExpr();
            else if (auto* e = dyn_cast<AttributedStmt>(s))
                s = e->getSubStmt();
            else
                break;
        }
        return s;
    }

    int add(const Stmt* key, const std::string& kind, unsigned line, const std::string& info,
            const std::vector<int>& ch) {
        std::ostringstream o;
        o << "[" << esc(kind) << "," << line << "," << (info.empty() ? "null" : info) << ",[";
        for (size_t i = 0; i < ch.size(); ++i)
            o << (i ? "," : "") << ch[i];
        o << "]]";
        nodes.push_back(o.str());
        int id = (int)nodes.size() - 1;
        if (key)
            ids[key] = id;
        return id;
    }

    std::string refInfo(const ValueDecl* d, QualType t) {
        std::ostringstream o;
        std::string kind = "other", id;
        if (auto* p = dyn_cast<ParmVarDecl>(d)) {
            kind = "param";
            id = c.declId(p);
        }
        else if (auto* v = dyn_cast<VarDecl>(d)) {
            if (v->isLocalVarDecl()) {
                kind = v->isStaticLocal() ? "static" : "local";
                id = c.declId(v);
            }
            else {
                kind = v->isStaticDataMember() ? "smember" : "global";
                id = c.qname(v);
            }
        }
        else if (auto* f = dyn_cast<FunctionDecl>(d)) {
            kind = "func";
            id = c.fid(f);
        }
        else if (auto* e = dyn_cast<EnumConstantDecl>(d)) {
            kind = "enum";
            id = c.qname(e);
            (void)e;
        }
        else if (isa<BindingDecl>(d)) {
            kind = "bind";
            id = c.declId(d);
        }
        else
            id = c.qname(d);
        o << "[" << esc(d->getDeclName().getAsString()) << "," << esc(kind) << "," << esc(id) << "," << esc(c.ty(t))
          << "]";
        return o.str();
    }

    std::string calleeInfo(const FunctionDecl* f, const char* how, bool virt, QualType ret, bool hasObj,
                           unsigned ndefault = 0) {
        std::ostringstream o;
        o << "{\"id\":" << esc(c.fid(f)) << ",\"q\":" << esc(c.fqname(f)) << ",\"k\":" << esc(how)
          << ",\"v\":" << (virt ? 1 : 0) << ",\"o\":" << (hasObj ? 1 : 0) << ",\"t\":" << esc(c.ty(ret));
        if (f) {
            bool nx = false;
            if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
                auto est = fpt->getExceptionSpecType();
                if (est != EST_Unevaluated && est != EST_Uninstantiated)
                    nx = fpt->isNothrow();
                else if (isa<CXXDestructorDecl>(f))
                    nx = true;
            }
            if (nx)
                o << ",\"nx\":1";
            if (f->isNoReturn())
                o << ",\"nr\":1";
            if (f->getStorageClass() == SC_Static || f->isGlobal())
                ;
            if (c.inRoot(f->getLocation()))
                o << ",\"r\":1";
            // parameters through which the callee may change its argument
            const FunctionDecl* pat = f->getTemplateInstantiationPattern();
            bool first = true;
            for (unsigned i = 0; i < f->getNumParams(); i++) {
                QualType t = f->getParamDecl(i)->getType();
                if (!t->isLValueReferenceType() || t->getPointeeType().isConstQualified())
                    continue;
                if (pat && pat->getNumParams()) {
                    QualType pt = pat->getParamDecl(std::min(i, pat->getNumParams() - 1))->getType();
                    if (auto* pe = pt->getAs<PackExpansionType>())
                        pt = pe->getPattern();
                    if (pt->isRValueReferenceType())
                        continue;
                }
                o << (first ? ",\"mp\":[" : ",") << i;
                first = false;
            }
            if (!first)
                o << "]";
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
                if (!m->isStatic() && !m->isConst() && !isa<CXXConstructorDecl>(m))
                    o << ",\"mc\":1";
        }
        if (ndefault)
            o << ",\"nd\":" << ndefault;
        o << "}";
        return o.str();
    }

    int varNode(const VarDecl* v) {
        std::vector<int> ch;
        if (v->hasInit() && v->getInit())
            ch.push_back(visit(v->getInit()));
        std::ostringstream o;
        const CXXRecordDecl* rd = v->getType()->getAsCXXRecordDecl();
        o << "{\"n\":" << esc(v->getDeclName().getAsString()) << ",\"d\":" << esc(c.declId(v))
          << ",\"t\":" << esc(c.ty(v->getType())) << ",\"ref\":" << (v->getType()->isReferenceType() ? 1 : 0)
          << ",\"static\":" << (v->isStaticLocal() ? 1 : 0) << ",\"const\":"
          << (v->getType().isConstQualified() ? 1 : 0);
        if (rd)
            o << ",\"c\":" << esc(c.clsId(rd));
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            o << ",\"b\":[";
            bool f = true;
            for (auto* b : dd->bindings()) {
                o << (f ? "" : ",") << esc(c.declId(b));
                f = false;
            }
            o << "]";
        }
        o << "}";
        return add(nullptr, "var", c.line(v->getLocation()), o.str(), ch);
    }

    std::unordered_map<const VarDecl*, int> varIds;

    int visit(const Stmt* s0) {
        const Stmt* s = strip(s0);
        if (!s)
            return add(nullptr, "null", 0, "", {});
        auto it = ids.find(s);
        if (it != ids.end())
            return it->second;
        unsigned ln = c.line(s->getBeginLoc());
        std::vector<int> ch;

        if (auto* e = dyn_cast<DeclRefExpr>(s))
            return add(s, "ref", c.line(e->getLocation()), refInfo(e->getDecl(), e->getType()), {});
        if (auto* e = dyn_cast<MemberExpr>(s)) {
            ch.push_back(visit(e->getBase()));
            std::ostringstream o;
            std::string own;
            const ValueDecl* d = e->getMemberDecl();
            if (auto* fd = dyn_cast<FieldDecl>(d))
                own = c.qname(fd);
            else if (auto* md = dyn_cast<CXXMethodDecl>(d))
                own = c.fqname(md);
            else
                own = c.qname(d);
            o << "[" << esc(d->getDeclName().getAsString()) << "," << esc(own) << "," << (e->isArrow() ? 1 : 0) << ","
              << esc(c.ty(e->getType())) << "]";
            return add(s, "mem", c.line(e->getMemberLoc()), o.str(), ch);
        }
        if (isa<CXXThisExpr>(s))
            return add(s, "this", ln, esc(c.ty(cast<CXXThisExpr>(s)->getType())), {});
        if (auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
            const CXXMethodDecl* m = e->getMethodDecl();
            const Stmt* cal = strip(e->getCallee());
            bool virt = false;
            if (m) {
                virt = m->isVirtual();
                if (auto* me = dyn_cast<MemberExpr>(cal)) {
                    if (me->hasQualifier())
                        virt = false;
                    ch.push_back(visit(me->getBase()));
                    ids[me] = -1;
                }
                else
                    ch.push_back(visit(e->getImplicitObjectArgument()));
                unsigned nd = 0;
                for (auto* a : e->arguments()) {
                    if (isa<CXXDefaultArgExpr>(a))
                        nd++;
                    ch.push_back(visit(a));
                }
                std::string ci = calleeInfo(m, "m", virt, e->getType(), true, nd);
                if (!m->isStatic()) {
                    // the class the receiver is declared with
                    QualType t = e->getImplicitObjectArgument()->IgnoreParenImpCasts()->getType();
                    if (t->isPointerType())
                        t = t->getPointeeType();
                    if (auto* rd = t->getAsCXXRecordDecl())
                        if (rd->getCanonicalDecl() != m->getParent()->getCanonicalDecl()) {
                            ci.pop_back();
                            ci += ",\"rc\":" + esc(c.clsId(rd)) + "}";
                        }
                }
                return add(s, "call", c.line(e->getExprLoc()), ci, ch);
            }
            ch.push_back(visit(cal));
            for (auto* a : e->arguments())
                ch.push_back(visit(a));
            return add(s, "icall", ln, "{\"t\":" + esc(c.ty(e->getType())) + "}", ch);
        }
        if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
            const FunctionDecl* f = e->getDirectCallee();
            for (auto* a : e->arguments())
                ch.push_back(visit(a));
            bool isM = f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
            bool virt = isM && cast<CXXMethodDecl>(f)->isVirtual();
            // the callee expression may appear in the CFG: map it
            ids[strip(e->getCallee())] = -1;
            if (!f) {
                return add(s, "icall", c.line(e->getOperatorLoc()), "{\"t\":" + esc(c.ty(e->getType())) + "}", ch);
            }
            return add(s, "call", c.line(e->getOperatorLoc()), calleeInfo(f, "op", virt, e->getType(), isM), ch);
        }
        if (auto* e = dyn_cast<CallExpr>(s)) {
            const FunctionDecl* f = e->getDirectCallee();
            if (f) {
                ids[strip(e->getCallee())] = -1;
                unsigned nd = 0;
                for (auto* a : e->arguments()) {
                    if (isa<CXXDefaultArgExpr>(a))
                        nd++;
                    ch.push_back(visit(a));
                }
                return add(s, "call", ln, calleeInfo(f, "f", false, e->getType(), false, nd), ch);
            }
            ch.push_back(visit(e->getCallee()));
            for (auto* a : e->arguments())
                ch.push_back(visit(a));
            return add(s, "icall", ln, "{\"t\":" + esc(c.ty(e->getType())) + "}", ch);
        }
        if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            unsigned nd = 0;
            for (auto* a : e->arguments()) {
                if (isa<CXXDefaultArgExpr>(a))
                    nd++;
                ch.push_back(visit(a));
            }
            const CXXConstructorDecl* k = e->getConstructor();
            std::string extra = "";
            std::string ci = calleeInfo(k, k->isCopyConstructor() ? "copy" : (k->isMoveConstructor() ? "move" : "ctor"),
                                        false, e->getType(), false, nd);
            return add(s, "new", c.line(e->getLocation()), ci, ch);
        }
        if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            if (e->getInitializer())
                ch.push_back(visit(e->getInitializer()));
            if (e->isArray() && e->getArraySize())
                ch.push_back(visit(*e->getArraySize()));
            return add(s, "newexpr", ln, esc(c.ty(e->getAllocatedType())), ch);
        }
        if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
            ch.push_back(visit(e->getArgument()));
            return add(s, "delete", ln, esc(c.ty(e->getDestroyedType())), ch);
        }
        if (auto* e = dyn_cast<LambdaExpr>(s)) {
            lambdas.push_back(e);
            std::ostringstream o;
            o << "{\"f\":" << esc(c.fid(e->getCallOperator())) << ",\"cls\":" << esc(c.clsId(e->getLambdaClass()))
              << ",\"cap\":[";
            auto ii = e->capture_init_begin();
            bool first = true;
            for (auto& cap : e->captures()) {
                o << (first ? "" : ",");
                first = false;
                int in = (*ii) ? visit(*ii) : -1;
                ++ii;
                if (cap.capturesThis())
                    o << "[\"this\"," << (cap.getCaptureKind() == LCK_StarThis ? "\"copy\"" : "\"this\"") << ",\"\"," << in
                      << "]";
                else if (cap.capturesVariable()) {
                    auto* v = cap.getCapturedVar();
                    bool init = false;
                    if (auto* vd = dyn_cast<VarDecl>(v))
                        init = vd->isInitCapture();
                    o << "[" << esc(v->getDeclName().getAsString()) << ","
                      << (cap.getCaptureKind() == LCK_ByRef ? "\"ref\"" : "\"copy\"") << ","
                      << esc(c.declId(cast<ValueDecl>(v))) << "," << in << "," << (init ? 1 : 0) << ","
                      << esc(c.ty(v->getType())) << "]";
                }
                else
                    o << "[\"?\",\"?\",\"\"," << in << "]";
            }
            o << "]}";
            return add(s, "lambda", ln, o.str(), {});
        }
        if (auto* e = dyn_cast<IntegerLiteral>(s)) {
            llvm::SmallString<32> b;
            e->getValue().toString(b, 10, e->getType()->isSignedIntegerType());
            return add(s, "int", ln, esc(b), {});
        }
        if (auto* e = dyn_cast<CharacterLiteral>(s))
            return add(s, "char", ln, std::to_string(e->getValue()), {});
        if (auto* e = dyn_cast<FloatingLiteral>(s)) {
            llvm::SmallString<32> b;
            e->getValue().toString(b);
            return add(s, "float", ln, esc(b), {});
        }
        if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s))
            return add(s, "bool", ln, e->getValue() ? "1" : "0", {});
        if (auto* e = dyn_cast<clang::StringLiteral>(s))
            return add(s, "str", ln, e->getCharByteWidth() == 1 ? esc(e->getString()) : "\"\"", {});
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
            return add(s, "nullptr", ln, "", {});
        if (auto* e = dyn_cast<BinaryOperator>(s)) {
            ch.push_back(visit(e->getLHS()));
            ch.push_back(visit(e->getRHS()));
            return add(s, e->isAssignmentOp() ? "assign" : "bin", c.line(e->getOperatorLoc()),
                       esc(e->getOpcodeStr()), ch);
        }
        if (auto* e = dyn_cast<UnaryOperator>(s)) {
            ch.push_back(visit(e->getSubExpr()));
            std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix())
                op = "p" + op;
            return add(s, "un", ln, esc(op), ch);
        }
        if (auto* e = dyn_cast<ExplicitCastExpr>(s)) {
            ch.push_back(visit(e->getSubExpr()));
            return add(s, "cast", ln,
                       "[" + esc(s->getStmtClassName()) + "," + esc(c.ty(e->getTypeAsWritten())) + "]", ch);
        }
        if (auto* e = dyn_cast<ConditionalOperator>(s)) {
            ch = {visit(e->getCond()), visit(e->getTrueExpr()), visit(e->getFalseExpr())};
            return add(s, "cond", ln, "", ch);
        }
        if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
            ch = {visit(e->getLHS()), visit(e->getRHS())};
            return add(s, "idx", ln, "", ch);
        }
        if (auto* e = dyn_cast<InitListExpr>(s)) {
            const InitListExpr* sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
            for (auto* i : sem->inits())
                ch.push_back(visit(i));
            int id = add(s, "initlist", ln, esc(c.ty(e->getType())), ch);
            ids[sem] = id;
            return id;
        }
        if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) {
            int i = visit(e->getSubExpr());
            ids[s] = i;
            return i;
        }
        if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            std::string t = c.ty(e->getTypeOfArgument());
            Expr::EvalResult r;
            std::string v = "";
            if (!e->isValueDependent() && e->EvaluateAsInt(r, c.ac))
                v = std::to_string(r.Val.getInt().getExtValue());
            return add(s, "sizeof", ln, "[" + esc(t) + "," + esc(v) + "]", {});
        }
        if (auto* e = dyn_cast<CXXThrowExpr>(s)) {
            if (e->getSubExpr())
                ch.push_back(visit(e->getSubExpr()));
            return add(s, "throw", ln,
                       e->getSubExpr() ? esc(c.ty(e->getSubExpr()->getType())) : std::string("null"), ch);
        }
        if (auto* e = dyn_cast<ReturnStmt>(s)) {
            if (e->getRetValue())
                ch.push_back(visit(e->getRetValue()));
            return add(s, "return", ln, "", ch);
        }
        if (auto* e = dyn_cast<DeclStmt>(s)) {
            for (auto* d : e->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) {
                    int id = varNode(v);
                    varIds[v] = id;
                    ch.push_back(id);
                    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                        // bindings of tuple-like types hold hidden variables
                        for (auto* b : dd->bindings())
                            if (auto* hv = b->getHoldingVar()) {
                                int hid = varNode(hv);
                                varIds[hv] = hid;
                                ch.push_back(hid);
                            }
                    }
                }
            }
            return add(s, "decl", ln, "", ch);
        }
        if (auto* e = dyn_cast<CompoundStmt>(s)) {
            for (auto* b : e->body())
                ch.push_back(visit(b));
            return add(s, "block", ln, std::to_string(c.line(e->getEndLoc())), ch);
        }
        if (auto* e = dyn_cast<IfStmt>(s)) {
            // children: cond, then, else, (init), (condvar decl)
            int ini = e->getInit() ? visit(e->getInit()) : -1;
            int cv = e->getConditionVariableDeclStmt() ? visit(e->getConditionVariableDeclStmt()) : -1;
            ch.push_back(visit(e->getCond()));
            ch.push_back(visit(e->getThen()));
            ch.push_back(e->getElse() ? visit(e->getElse()) : add(nullptr, "null", 0, "", {}));
            if (ini >= 0)
                ch.push_back(ini);
            if (cv >= 0)
                ch.push_back(cv);
            return add(s, "if", ln, e->isConstexpr() ? "\"constexpr\"" : "", ch);
        }
        if (auto* e = dyn_cast<WhileStmt>(s)) {
            if (e->getConditionVariableDeclStmt())
                ch.push_back(visit(e->getConditionVariableDeclStmt()));
            ch.insert(ch.begin(), visit(e->getCond()));
            ch.push_back(visit(e->getBody()));
            return add(s, "while", ln, "", ch);
        }
        if (auto* e = dyn_cast<DoStmt>(s)) {
            ch = {visit(e->getCond()), visit(e->getBody())};
            return add(s, "do", ln, "", ch);
        }
        if (auto* e = dyn_cast<ForStmt>(s)) {
            ch.push_back(visit(e->getInit()));
            ch.push_back(visit(e->getCond()));
            ch.push_back(visit(e->getInc()));
            ch.push_back(visit(e->getBody()));
            return add(s, "for", ln, "", ch);
        }
        if (auto* e = dyn_cast<CXXForRangeStmt>(s)) {
            // children: range-init, loop variable decl, body, then helper statements
            ch.push_back(visit(e->getRangeInit()));
            ch.push_back(visit(e->getLoopVarStmt()));
            ch.push_back(visit(e->getBody()));
            if (e->getRangeStmt())
                ch.push_back(visit(e->getRangeStmt()));
            if (e->getBeginStmt())
                ch.push_back(visit(e->getBeginStmt()));
            if (e->getEndStmt())
                ch.push_back(visit(e->getEndStmt()));
            if (e->getCond())
                ch.push_back(visit(e->getCond()));
            if (e->getInc())
                ch.push_back(visit(e->getInc()));
            return add(s, "forrange", ln, "", ch);
        }
        if (auto* e = dyn_cast<CXXTryStmt>(s)) {
            ch.push_back(visit(e->getTryBlock()));
            for (unsigned i = 0; i < e->getNumHandlers(); ++i)
                ch.push_back(visit(e->getHandler(i)));
            return add(s, "try", ln, "", ch);
        }
        if (auto* e = dyn_cast<CXXCatchStmt>(s)) {
            ch.push_back(visit(e->getHandlerBlock()));
            std::string t = e->getExceptionDecl() ? c.ty(e->getCaughtType()) : std::string("...");
            std::string d = e->getExceptionDecl() ? c.declId(e->getExceptionDecl()) : std::string("");
            return add(s, "catch", ln, "[" + esc(t) + "," + esc(d) + "]", ch);
        }
        if (auto* e = dyn_cast<SwitchStmt>(s)) {
            if (e->getInit())
                visit(e->getInit());
            ch = {visit(e->getCond()), visit(e->getBody())};
            return add(s, "switch", ln, "", ch);
        }
        if (auto* e = dyn_cast<CaseStmt>(s)) {
            ch = {visit(e->getLHS()), visit(e->getSubStmt())};
            return add(s, "case", ln, "", ch);
        }
        if (auto* e = dyn_cast<DefaultStmt>(s)) {
            ch = {visit(e->getSubStmt())};
            return add(s, "default", ln, "", ch);
        }
        // generic
        for (const Stmt* k : s->children())
            if (k)
                ch.push_back(visit(k));
        return add(s, std::string("?") + s->getStmtClassName(), ln, "", ch);
    }
};

// ---------------------------------------------------------------------------------------------------------------

class Visitor : public RecursiveASTVisitor<Visitor> {
public:

    Ctx c;
    std::vector<std::string> fns, classes, enums, globals, decls;
    std::set<std::string> seenFn, seenDecl;
    std::set<const Decl*> seenCls;

    explicit Visitor(ASTContext& a) : c(a) {}

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fnHead(const FunctionDecl* f) {
        std::ostringstream o;
        auto* m = dyn_cast<CXXMethodDecl>(f);
        const char* k = "fn";
        if (m) {
            k = "method";
            if (isa<CXXConstructorDecl>(m))
                k = "ctor";
            else if (isa<CXXDestructorDecl>(m))
                k = "dtor";
            else if (m->getParent()->isLambda())
                k = "lambda";
        }
        bool nx = false;
        if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
            auto est = fpt->getExceptionSpecType();
            if (est != EST_Unevaluated && est != EST_Uninstantiated && est != EST_Unparsed)
                nx = fpt->isNothrow();
            else if (isa<CXXDestructorDecl>(f))
                nx = true;
        }
        o << "\"id\":" << esc(c.fid(f)) << ",\"q\":" << esc(c.fqname(f)) << ",\"name\":"
          << esc(f->getDeclName().getAsString()) << ",\"kind\":\"" << k << "\",\"file\":" << esc(c.relFile(f->getLocation()))
          << ",\"line\":" << c.line(f->getLocation()) << ",\"ret\":" << esc(c.ty(f->getReturnType()))
          << ",\"noexcept\":" << (nx ? 1 : 0) << ",\"externC\":" << (f->isExternC() ? 1 : 0) << ",\"acc\":" << (int)f->getAccess()
          << ",\"implicit\":" << ((f->isImplicit() || f->isDefaulted()) ? 1 : 0)
          << ",\"deleted\":" << (f->isDeleted() ? 1 : 0)
          << ",\"ext\":" << (f->isExternallyVisible() ? 1 : 0);
        if (m) {
            o << ",\"cls\":" << esc(c.clsId(m->getParent())) << ",\"virtual\":" << (m->isVirtual() ? 1 : 0)
              << ",\"pure\":" << (m->isPureVirtual() ? 1 : 0) << ",\"const\":" << (m->isConst() ? 1 : 0)
              << ",\"static\":" << (m->isStatic() ? 1 : 0) << ",\"ov\":[";
            bool first = true;
            for (auto* b : m->overridden_methods()) {
                o << (first ? "" : ",") << esc(c.fid(b));
                first = false;
            }
            o << "]";
        }
        o << ",\"params\":[";
        bool first = true;
        for (auto* p : f->parameters()) {
            o << (first ? "" : ",") << "[" << esc(p->getDeclName().getAsString()) << "," << esc(c.declId(p)) << ","
              << esc(c.ty(p->getType())) << "]";
            first = false;
        }
        o << "]";
        return o.str();
    }

    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->getLocation().isValid() || !c.inRoot(f->getLocation()))
            return true;
        if (f->isDependentContext() || f->isTemplated())
            return true;
        if (f->isImplicit() && !f->doesThisDeclarationHaveABody())
            return true;
        std::string id = c.fid(f);
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def) || !def || f->willHaveBody()) {
            if (isa<CXXMethodDecl>(f) || f->isExternC())
                if (seenDecl.insert(id).second)
                    decls.push_back("{" + fnHead(f) + "}");
            return true;
        }
        if (def != f)
            return true;
        if (!f->getBody())
            return true;
        if (!seenFn.insert(id).second)
            return true;
        dumpBody(f);
        return true;
    }

    void dumpBody(FunctionDecl* f) {
        FnDump d(c);
        std::ostringstream o;
        o << "{" << fnHead(f) << ",\"end\":" << c.line(f->getBody()->getEndLoc());
        // constructor initialisers
        std::ostringstream inits;
        if (auto* k = dyn_cast<CXXConstructorDecl>(f)) {
            bool first = true;
            for (auto* i : k->inits()) {
                inits << (first ? "" : ",");
                first = false;
                std::string what, kind;
                if (i->isAnyMemberInitializer()) {
                    kind = "field";
                    what = c.qname(i->getAnyMember());
                }
                else if (i->isDelegatingInitializer()) {
                    kind = "delegate";
                }
                else {
                    kind = "base";
                    what = c.ty(QualType(i->getBaseClass(), 0));
                }
                inits << "[" << esc(kind) << "," << esc(what) << "," << d.visit(i->getInit()) << ","
                      << (i->isWritten() ? 1 : 0) << "]";
            }
        }
        // function try block or body
        int root = d.visit(f->getBody());

        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddTemporaryDtors = false;
        bo.AddInitializers = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.PruneTriviallyFalseEdges = true;
        bo.AddEHEdges = false;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &c.ac, bo);
        std::ostringstream g;
        if (cfg) {
            g << "{\"entry\":" << cfg->getEntry().getBlockID() << ",\"exit\":" << cfg->getExit().getBlockID()
              << ",\"b\":[";
            bool fb = true;
            for (auto* b : *cfg) {
                if (!b)
                    continue;
                g << (fb ? "" : ",");
                fb = false;
                g << "[" << b->getBlockID() << ",[";
                bool fe = true;
                auto put = [&](const std::string& s) {
                    g << (fe ? "" : ",") << s;
                    fe = false;
                };
                for (auto& e : *b) {
                    if (auto cs = e.getAs<CFGStmt>()) {
                        const Stmt* s = cs->getStmt();
                        const Stmt* st = FnDump::strip(s);
                        if (st != s)
                            continue;
                        if (auto* ds = dyn_cast<DeclStmt>(s)) {
                            for (auto* dd : ds->decls())
                                if (auto* v = dyn_cast<VarDecl>(dd)) {
                                    auto it = d.varIds.find(v);
                                    if (it != d.varIds.end())
                                        put(std::to_string(it->second));
                                    else {
                                        int id = d.varNode(v);
                                        d.varIds[v] = id;
                                        put(std::to_string(id));
                                    }
                                }
                            continue;
                        }
                        auto it = d.ids.find(s);
                        int id = it == d.ids.end() ? d.visit(s) : it->second;
                        if (id >= 0)
                            put(std::to_string(id));
                    }
                    else if (auto ci = e.getAs<CFGInitializer>()) {
                        auto* i = ci->getInitializer();
                        std::string w = i->isAnyMemberInitializer() ? c.qname(i->getAnyMember())
                                        : i->isBaseInitializer()    ? c.ty(QualType(i->getBaseClass(), 0))
                                                                    : std::string("");
                        put("[\"i\"," + esc(w) + "," + std::to_string(d.visit(i->getInit())) + "]");
                    }
                    else if (auto ad = e.getAs<CFGAutomaticObjDtor>()) {
                        const VarDecl* v = ad->getVarDecl();
                        QualType t = v->getType();
                        if (t->isReferenceType())
                            t = t.getNonReferenceType();
                        const CXXRecordDecl* rd = t->getBaseElementTypeUnsafe()->getAsCXXRecordDecl();
                        const CXXDestructorDecl* dd = rd ? rd->getDestructor() : nullptr;
                        put("[\"~\"," + esc(c.declId(v)) + "," + esc(rd ? c.clsId(rd) : "") + "," +
                            esc(dd ? c.fid(dd) : "") + "," + std::to_string(c.line(ad->getTriggerStmt() ? ad->getTriggerStmt()->getEndLoc() : v->getLocation())) + "]");
                    }
                    else if (auto md = e.getAs<CFGMemberDtor>()) {
                        auto* fd = md->getFieldDecl();
                        const CXXRecordDecl* rd = fd->getType()->getBaseElementTypeUnsafe()->getAsCXXRecordDecl();
                        put("[\"m~\"," + esc(c.qname(fd)) + "," + esc(rd ? c.clsId(rd) : "") + "]");
                    }
                    else if (auto bd = e.getAs<CFGBaseDtor>()) {
                        const CXXRecordDecl* rd = bd->getBaseSpecifier()->getType()->getAsCXXRecordDecl();
                        put("[\"b~\"," + esc(rd ? c.clsId(rd) : "") + "]");
                    }
                }
                g << "],[";
                bool fs = true;
                for (auto& sc : b->succs()) {
                    g << (fs ? "" : ",");
                    fs = false;
                    if (const CFGBlock* r = sc.getReachableBlock())
                        g << r->getBlockID();
                    else
                        g << -1;
                }
                g << "],";
                // terminator
                if (const Stmt* t = b->getTerminatorStmt()) {
                    const Expr* lc = b->getLastCondition();
                    std::string tk = t->getStmtClassName();
                    int cid = -1;
                    if (lc && b->succ_size() > 1) {
                        auto* sl = FnDump::strip(lc);
                        auto it = d.ids.find(sl);
                        cid = it == d.ids.end() ? d.visit(lc) : it->second;
                    }
                    int tid = -1;
                    {
                        auto it = d.ids.find(FnDump::strip(t));
                        if (it != d.ids.end())
                            tid = it->second;
                    }
                    g << "[" << esc(tk) << "," << cid << "," << c.line(t->getBeginLoc()) << "," << tid << "]";
                }
                else
                    g << "null";
                g << ",";
                if (const Stmt* l = b->getLabel()) {
                    auto it = d.ids.find(l);
                    int lid = it == d.ids.end() ? d.visit(l) : it->second;
                    g << lid;
                }
                else
                    g << -1;
                g << "," << (b->hasNoReturnElement() ? 1 : 0) << "]";
            }
            g << "]}";
        }
        else
            g << "null";

        o << ",\"inits\":[" << inits.str() << "],\"body\":" << root << ",\"cfg\":" << g.str() << ",\"n\":[";
        for (size_t i = 0; i < d.nodes.size(); ++i)
            o << (i ? "," : "") << d.nodes[i];
        o << "]";
        // lexical parent for lambdas and local functions
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            const DeclContext* dc = m->getParent()->getDeclContext();
            while (dc && !isa<FunctionDecl>(dc) && !dc->isTranslationUnit())
                dc = dc->getParent();
            if (dc && isa<FunctionDecl>(dc))
                o << ",\"parent\":" << esc(c.fid(cast<FunctionDecl>(dc)));
        }
        o << "}";
        fns.push_back(o.str());
        // call operators of lambdas are visited by the recursive visitor (non-generic) and by instantiation (generic);
        // make sure none is missed
        for (auto* l : d.lambdas) {
            auto* op = l->getCallOperator();
            if (!op->isDependentContext() && op->getBody() && !l->isGenericLambda()) {
                std::string lid = c.fid(op);
                if (seenFn.insert(lid).second)
                    dumpBody(op);
            }
            else if (l->isGenericLambda()) {
                if (auto* ft = op->getDescribedFunctionTemplate())
                    for (auto* sp : ft->specializations())
                        if (const FunctionDecl* dd = nullptr; sp->hasBody(dd) && dd) {
                            std::string lid = c.fid(dd);
                            if (seenFn.insert(lid).second)
                                dumpBody(const_cast<FunctionDecl*>(dd));
                        }
            }
        }
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->getLocation().isValid() || !c.inRoot(r->getLocation()))
            return true;
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return true;
        if (!seenCls.insert(r).second)
            return true;
        std::ostringstream o;
        o << "{\"id\":" << esc(c.clsId(r)) << ",\"q\":" << esc(c.qname(r)) << ",\"file\":" << esc(c.relFile(r->getLocation()))
          << ",\"line\":" << c.line(r->getLocation()) << ",\"abstract\":" << (r->isAbstract() ? 1 : 0)
          << ",\"poly\":" << (r->isPolymorphic() ? 1 : 0) << ",\"bases\":[";
        bool first = true;
        for (auto& b : r->bases()) {
            const CXXRecordDecl* br = b.getType()->getAsCXXRecordDecl();
            o << (first ? "" : ",") << esc(br ? c.clsId(br) : c.ty(b.getType()));
            first = false;
        }
        o << "],\"fields\":[";
        first = true;
        const ASTRecordLayout* lay = nullptr;
        if (!r->isInvalidDecl())
            lay = &c.ac.getASTRecordLayout(r);
        for (auto* f : r->fields()) {
            o << (first ? "" : ",");
            first = false;
            std::string init = "null";
            if (f->hasInClassInitializer() && f->getInClassInitializer()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                f->getInClassInitializer()->printPretty(os, nullptr, c.pp);
                init = esc(os.str());
            }
            uint64_t sz = 0;
            if (!f->getType()->isDependentType() && !f->getType()->isReferenceType() &&
                !f->getType()->isIncompleteType())
                sz = c.ac.getTypeSize(f->getType());
            o << "[" << esc(f->getDeclName().getAsString()) << "," << esc(c.ty(f->getType())) << ","
              << (lay ? lay->getFieldOffset(f->getFieldIndex()) : 0) << "," << (f->isMutable() ? 1 : 0) << "," << init
              << "," << c.line(f->getLocation()) << "," << sz << "," << esc(f->getType().getAsString(c.pp)) << "]";
        }
        o << "],\"size\":" << (lay ? lay->getSize().getQuantity() : 0)
          << ",\"userdtor\":" << (r->hasUserDeclaredDestructor() ? 1 : 0)
          << ",\"copyable\":" << ((r->hasSimpleCopyConstructor() || r->hasUserDeclaredCopyConstructor()) ? 1 : 0) << ",\"friends\":0,\"methods\":[";
        first = true;
        for (auto* m : r->methods()) {
            if (m->isImplicit())
                continue;
            o << (first ? "" : ",") << esc(c.fid(m));
            first = false;
        }
        o << "]}";
        classes.push_back(o.str());
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->getLocation().isValid() || !c.inRoot(e->getLocation()) || !e->isThisDeclarationADefinition())
            return true;
        std::ostringstream o;
        o << "{\"q\":" << esc(c.qname(e)) << ",\"file\":" << esc(c.relFile(e->getLocation()))
          << ",\"line\":" << c.line(e->getLocation()) << ",\"type\":" << esc(c.ty(e->getIntegerType())) << ",\"v\":[";
        bool first = true;
        for (auto* k : e->enumerators()) {
            llvm::SmallString<32> b;
            k->getInitVal().toString(b, 10);
            o << (first ? "" : ",") << "[" << esc(k->getDeclName().getAsString()) << "," << b.str().str() << "]";
            first = false;
        }
        o << "]}";
        enums.push_back(o.str());
        return true;
    }

    bool VisitVarDecl(VarDecl* v) {
        if (!v->getLocation().isValid() || !c.inRoot(v->getLocation()))
            return true;
        if (!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v))
            return true;
        if (v->getDeclContext()->isDependentContext() || v->isTemplated())
            return true;
        if (!v->hasInit() || v->getType()->isDependentType())
            return true;
        const VarDecl* idv = nullptr;
        const Expr* in = v->getAnyInitializer(idv);
        if (!in || idv != v)
            return true;
        FnDump d(c);
        int root = d.visit(in);
        std::ostringstream o;
        o << "{\"q\":" << esc(c.qname(v)) << ",\"t\":" << esc(c.ty(v->getType())) << ",\"file\":"
          << esc(c.relFile(v->getLocation())) << ",\"line\":" << c.line(v->getLocation()) << ",\"root\":" << root << ",\"n\":[";
        for (size_t i = 0; i < d.nodes.size(); ++i)
            o << (i ? "," : "") << d.nodes[i];
        o << "]}";
        globals.push_back(o.str());
        for (auto* l : d.lambdas) {
            auto* op = l->getCallOperator();
            if (!op->isDependentContext() && op->getBody() && !l->isGenericLambda()) {
                std::string lid = c.fid(op);
                if (seenFn.insert(lid).second)
                    dumpBody(op);
            }
        }
        return true;
    }
};

class Consumer : public ASTConsumer {
    CompilerInstance& ci_;

public:

    explicit Consumer(CompilerInstance& ci) : ci_(ci) {}
    void HandleTranslationUnit(ASTContext& ac) override {
        if (ci_.getDiagnostics().hasErrorOccurred())
            return;
        Visitor v(ac);
        v.TraverseDecl(ac.getTranslationUnitDecl());
        std::ofstream f(gOut);
        auto put = [&](const char* n, std::vector<std::string>& x) {
            f << "\"" << n << "\":[\n";
            for (size_t i = 0; i < x.size(); ++i)
                f << (i ? ",\n" : "") << x[i];
            f << "]";
        };
        std::set<std::string> deps;
        auto& sm = ac.getSourceManager();
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
            llvm::StringRef rp = it->first.getFileEntry().tryGetRealPathName();
            if (!rp.empty())
                deps.insert(rp.str());
        }
        f << "{\"deps\":[";
        bool first = true;
        for (auto& d : deps) {
            f << (first ? "" : ",") << esc(d);
            first = false;
        }
        f << "],";
        put("functions", v.fns);
        f << ",";
        put("decls", v.decls);
        f << ",";
        put("classes", v.classes);
        f << ",";
        put("enums", v.enums);
        f << ",";
        put("globals", v.globals);
        f << "}\n";
    }
};

class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
        return std::make_unique<Consumer>(ci);
    }
};

int main(int argc, const char** argv) {
    if (argc < 5) {
        llvm::errs() << "usage: factdump <root> <out> -- <args...>\n";
        return 2;
    }
    gRoot = argv[1];
    gOut = argv[2];
    std::vector<std::string> args;
    args.push_back("clang++");
    for (int i = 4; i < argc; ++i)
        args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    args.push_back("-resource-dir");
    args.push_back("/usr/lib/llvm-18/lib/clang/18");
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation ti(args, std::make_unique<Action>(), fm.get());
    return ti.run() ? 0 : 1;
}
