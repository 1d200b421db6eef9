// Shared by the C35 harnesses: a command line made of strings.
#ifndef VERIF_C35_H
#define VERIF_C35_H
#include "eoh.h"
#include <memory>
struct Line {
    std::vector<std::string> words; std::vector<char*> argv;
    std::unique_ptr<eoParser> parser;
    Line() { words.push_back("prog"); }
    template <class T> Line& set(const std::string& name, const T& v) { words.push_back(mon::cat("--", name, "=", v)); return *this; }
    eoParser& go() {
        argv.clear();
        for (auto& w : words) argv.push_back(&w[0]);
        argv.push_back(nullptr);
        parser.reset(new eoParser((unsigned)words.size(), argv.data(), "verification"));
        return *parser;
    }
    std::string str() const { std::string s; for (auto& w : words) s += w + " "; return s; }
};
#endif
