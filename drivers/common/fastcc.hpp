// A C compiler for many small models: joins the sources of a library and compiles them in one go; a source
// that cannot be joined is compiled with the others as a separate file.
#pragma once
#include <cppad/cg/cppadcg.hpp>
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>

struct FastCompiler : public CppAD::cg::CCompiler<double> {
    std::map<std::string, std::string> src;
    std::string dir, empty, flags;
    std::set<std::string> none;
    bool joined = true, verbose = false;
    explicit FastCompiler(std::string d, std::string f = "") : dir(std::move(d)), flags(std::move(f)) {}
    const std::string& getTemporaryFolder() const override { return dir; }
    void setTemporaryFolder(const std::string& t) override { dir = t; }
    bool isSaveToDiskFirst() const override { return false; }
    void setSaveToDiskFirst(bool) override {}
    const std::string& getSourcesFolder() const override { return dir; }
    void setSourcesFolder(const std::string& s) override { dir = s; }
    const std::set<std::string>& getObjectFiles() const override { return none; }
    const std::set<std::string>& getSourceFiles() const override { return none; }
    bool isVerbose() const override { return verbose; }
    void setVerbose(bool v) override { verbose = v; }
    void compileSources(const std::map<std::string, std::string>& s, bool, CppAD::cg::JobTimer*) override { for (auto& p : s) src[p.first] = p.second; }
    bool run(const std::vector<std::string>& files, const std::string& out) {
        const char* cc = getenv("FASTCC");
        std::string cmd = std::string("exec ") + (cc ? cc : "gcc") + " -O0 -w -fPIC -shared -ftrivial-auto-var-init=pattern -ffp-contract=off " + flags + " -o '" + out + "'";
        for (auto& f : files) cmd += " '" + f + "'";
        return system((cmd + " -lm 2> '" + dir + "/cc.err'").c_str()) == 0;
    }
    static void once(std::string& t, const std::string& first, const std::string& last, bool& have) { // definitions appear once in the joined sources
        for (size_t a = 0; (a = t.find(first, a)) != std::string::npos;) {
            size_t b = t.find(last, a);
            if (b == std::string::npos) break;
            if (have) t.erase(a, b + last.size() - a); else { have = true; a = b; }
        }
    }
    void buildDynamic(const std::string& library, CppAD::cg::JobTimer*) override {
        std::vector<std::string> files;
        std::string all;
        if (joined) {
            bool have[2] = {false, false};
            for (auto& p : src) {
                std::string t = p.second;
                if (t.find("cppadcg_function_type") != std::string::npos || t.find("CPPADCG_PTHREAD_POOL_H") != std::string::npos || t.find("omp.h") != std::string::npos) {
                    std::string f = dir + "/" + p.first; std::ofstream(f) << t; files.push_back(f);  // does not join with others
                    continue;
                }
                once(t, "typedef struct Array {", "} Array;", have[0]);
                once(t, "struct LangCAtomicFun {", "};", have[1]);
                all += t + "\n";
            }
            std::string f = dir + "/all.c";
            std::ofstream(f) << all;
            files.push_back(f);
            if (run(files, library)) { src.clear(); return; }
            files.clear();
        }
        for (auto& p : src) { std::string f = dir + "/" + p.first; std::ofstream(f) << p.second; files.push_back(f); }
        src.clear();
        if (!run(files, library)) {
            std::ifstream e(dir + "/cc.err"); std::stringstream s; s << e.rdbuf();
            throw CppAD::cg::CGException("compilation failed: ", s.str().substr(0, 600));
        }
    }
    void cleanup() override {}
};
