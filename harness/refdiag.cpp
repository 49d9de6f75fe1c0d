// Reference front end: compiles one source with the same compiler library, by the library's
// own road (createInvocation, SyntaxOnlyAction or AnalysisAction), and prints what the
// compiler says as JSON rows [level, file, line, column, text].
//   refdiag [-analyze] DIR ARGS...      ARGS as in a compile command, without the compiler
#include <clang/Basic/Diagnostic.h>
#include <clang/Basic/DiagnosticOptions.h>
#include <clang/Basic/FileManager.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Driver/Compilation.h>
#include <clang/Driver/Driver.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/CompilerInvocation.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Frontend/Utils.h>
#include <clang/StaticAnalyzer/Frontend/FrontendActions.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/VirtualFileSystem.h>
#include <llvm/TargetParser/Host.h>
#include <clang/Driver/Job.h>
#include <cstdio>
#include <string>
#include <unistd.h>
#include <vector>
static void str(const std::string &s) {
    putchar('"');
    for (unsigned char c : s) {
        if (c < 0x20 || c > 0x7e || c == '"' || c == '\\') printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
static bool first = true;
class Consumer : public clang::DiagnosticConsumer {
public:
    void HandleDiagnostic(clang::DiagnosticsEngine::Level level, const clang::Diagnostic &info) override {
        clang::DiagnosticConsumer::HandleDiagnostic(level, info);
        static const char *const names[] = {"ignored", "note", "remark", "warning", "error", "fatal"};
        llvm::SmallString<200> text;
        info.FormatDiagnostic(text);
        std::string file;
        unsigned line = 0, col = 0;
        if (info.hasSourceManager() && info.getLocation().isValid()) {
            clang::SourceManager &sm = info.getSourceManager();
            clang::SourceLocation at = sm.getExpansionLoc(info.getLocation());
            if (auto e = sm.getFileEntryRefForID(sm.getFileID(at))) {
                llvm::SmallString<200> p(e->getName());
                sm.getFileManager().makeAbsolutePath(p);
                file = p.str().str();
            }
            clang::PresumedLoc pl = sm.getPresumedLoc(at);
            if (pl.isValid()) { line = pl.getLine(); col = pl.getColumn(); }
        }
        printf("%s[", first ? "" : ",\n");
        first = false;
        str(names[level]); putchar(','); str(file);
        printf(",%u,%u,", line, col);
        str(text.str().str());
        printf("]");
    }
};
int main(int argc, char **argv) {
    int i = 1;
    bool analyze = i < argc && std::string(argv[i]) == "-analyze";
    if (analyze) i++;
    if (i >= argc || chdir(argv[i++])) return 2;
    static int here;
    std::string self = llvm::sys::fs::getMainExecutable(argv[0], &here);
    std::vector<std::string> words{self, "-D__OCLINT__"};
    if (analyze) { words.push_back("--analyze"); words.push_back("--analyzer-output"); words.push_back("text-minimal"); }
    else words.push_back("-fsyntax-only");
    for (; i < argc; i++) if (!(analyze && std::string(argv[i]) == "-fsyntax-only")) words.push_back(argv[i]);
    std::vector<const char *> args;
    for (auto &w : words) args.push_back(w.c_str());
    auto ignore = clang::CompilerInstance::createDiagnostics(*llvm::vfs::getRealFileSystem(), new clang::DiagnosticOptions, new clang::IgnoringDiagConsumer, true);
    std::shared_ptr<clang::CompilerInvocation> inv;
    if (analyze) {
        clang::driver::Driver driver(args[0], llvm::sys::getDefaultTargetTriple(), *ignore);
        std::unique_ptr<clang::driver::Compilation> c(driver.BuildCompilation(args));
        if (c && !c->getJobs().empty()) {
            inv = std::make_shared<clang::CompilerInvocation>();
            clang::CompilerInvocation::CreateFromArgs(*inv, c->getJobs().begin()->getArguments(), *ignore);
        }
    } else {
        clang::CreateInvocationOptions opts;
        opts.Diags = ignore;
        inv = clang::createInvocation(args, opts);
    }
    printf("{\"d\":[");
    if (inv) {
        clang::CompilerInstance ci;
        ci.setInvocation(inv);
        ci.createDiagnostics(*llvm::vfs::getRealFileSystem(), new Consumer, true);
        if (analyze) { clang::ento::AnalysisAction a; ci.ExecuteAction(a); }
        else { clang::SyntaxOnlyAction a; ci.ExecuteAction(a); }
        printf("],\"errors\":%d}\n", ci.getDiagnostics().hasErrorOccurred() ? 1 : 0);
    } else printf("],\"errors\":-1}\n");
    return 0;
}
