// Lists what the library's headers declare: one JSON line per function, constant and class.  usage: apx ROOT -- clang args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/CXXInheritance.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
using namespace clang;
static std::string Root;

struct V : RecursiveASTVisitor<V> {
    ASTContext &C; SourceManager &S; ASTNameGenerator N;
    V(ASTContext &c) : C(c), S(c.getSourceManager()), N(c) {}
    bool shouldVisitImplicitCode() const { return false; }
    std::string file(SourceLocation l, unsigned &line) {
        l = S.getExpansionLoc(l); line = S.getExpansionLineNumber(l);
        auto f = S.getFilename(l).str();
        return f.rfind(Root, 0) == 0 ? f.substr(Root.size()) : "";
    }
    static const char *acc(const Decl *d) {
        switch (d->getAccess()) { case AS_public: return "public"; case AS_protected: return "protected"; case AS_private: return "private"; default: return "none"; }
    }
    static bool hidden(const DeclContext *x) {   // inside a private or unnamed class, or a function
        for (; x; x = x->getParent()) {
            if (isa<FunctionDecl>(x)) return true;
            if (auto r = dyn_cast<CXXRecordDecl>(x)) if (r->getAccess() == AS_private || !r->getIdentifier()) return true;
            if (auto n = dyn_cast<NamespaceDecl>(x)) if (n->isAnonymousNamespace()) return true;
        }
        return false;
    }
    void out(llvm::json::Object o) { llvm::outs() << llvm::json::Value(std::move(o)) << "\n"; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (f != f->getCanonicalDecl() || f->isImplicit()) return true;
        unsigned l; auto p = file(f->getLocation(), l); if (p.empty()) return true;
        bool dep = f->isDependentContext() || f->getTemplatedKind() != FunctionDecl::TK_NonTemplate;
        std::string sig; llvm::raw_string_ostream os(sig); f->getNameForDiagnostic(os, PrintingPolicy(C.getLangOpts()), true);
        sig += "("; bool first = true;
        for (auto a : f->parameters()) { if (!first) sig += ", "; first = false; sig += a->getType().getAsString(PrintingPolicy(C.getLangOpts())); }
        sig += ")"; auto *m = dyn_cast<CXXMethodDecl>(f); if (m && m->isConst()) sig += " const";
        llvm::json::Object o{{"k", "fn"}, {"q", sig}, {"file", p}, {"line", (int) l}, {"acc", acc(f)}, {"body", f->isDefined() || f->isDefaulted()}, {"inl", f->isInlined()},
            {"pure", f->isPureVirtual()}, {"deleted", f->isDeleted()}, {"tmpl", dep}, {"hidden", hidden(f->getDeclContext())}, {"friend", f->getFriendObjectKind() != Decl::FOK_None}};
        if (m) o["cls"] = m->getParent()->getQualifiedNameAsString();
        if (!dep) { llvm::json::Array a; if (isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f)) for (auto &s : N.getAllManglings(f)) a.push_back(s); else a.push_back(N.getName(f)); o["m"] = std::move(a); }
        out(std::move(o)); return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (!v->isStaticDataMember() && !(v->isFileVarDecl() && v->hasExternalStorage())) return true;
        if (v != v->getCanonicalDecl()) return true;
        unsigned l; auto p = file(v->getLocation(), l); if (p.empty()) return true;
        bool dep = v->getDeclContext()->isDependentContext();
        llvm::json::Object o{{"k", "var"}, {"q", v->getQualifiedNameAsString()}, {"file", p}, {"line", (int) l}, {"acc", acc(v)}, {"body", v->getDefinition() != nullptr || v->isInline() || v->isConstexpr()},
            {"init", v->getAnyInitializer() != nullptr}, {"tmpl", dep}, {"hidden", hidden(v->getDeclContext())}};
        if (!dep) o["m"] = N.getName(v);
        out(std::move(o)); return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (!r->isThisDeclarationADefinition() || r->isImplicit() || !r->getIdentifier()) return true;
        unsigned l; auto p = file(r->getLocation(), l); if (p.empty()) return true;
        llvm::json::Array ctor, pure;
        for (auto c : r->ctors()) ctor.push_back(llvm::json::Object{{"acc", acc(c)}, {"deleted", c->isDeleted()}, {"n", (int) c->getNumParams()}, {"implicit", c->isImplicit()}});
        bool dep = r->isDependentContext();
        if (!dep) { clang::CXXFinalOverriderMap M; r->getFinalOverriders(M);
            for (auto &a : M) for (auto &b : a.second) for (auto &u : b.second) if (u.Method->isPureVirtual()) pure.push_back(u.Method->getQualifiedNameAsString()); }
        out(llvm::json::Object{{"k", "cls"}, {"q", r->getQualifiedNameAsString()}, {"file", p}, {"line", (int) l}, {"tmpl", dep}, {"abstract", !dep && r->isAbstract()}, {"hidden", hidden(r->getDeclContext()) || r->getAccess() == AS_private},
            {"ctors", std::move(ctor)}, {"pure", std::move(pure)}});
        return true;
    }
};
struct Con : ASTConsumer { void HandleTranslationUnit(ASTContext &c) override { V(c).TraverseDecl(c.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); } };

int main(int n, char **a) {
    Root = a[1]; std::string err; int k = n;
    auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(k, (const char *const *) a, err);
    std::vector<std::string> f{a[2]};
    tooling::ClangTool t(*db, f);
    return t.run(tooling::newFrontendActionFactory<Act>().get());
}
