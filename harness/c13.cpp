// C13: command-line and parameter-file settings reach the program exactly.
#include "eoh.h"
#include <eoScalarFitness.h>
#include <utils/eoParser.h>
#include <utils/eoHowMany.h>
#include <utils/eoLogger.h>
#include <fstream>
#include <unistd.h>
using namespace eoh;

enum Kind { INT, UNS, LONG, DBL, STR, BOOL, PP, VEC, HOWMANY, KINDS };
struct Spec {
    Kind kind; std::string longName; char shortName; std::string section; bool required;
    std::string def;            // default, as text in the form the command line takes
    bool inFile = false, inLine = false; bool lineShort = false, fileShort = false;
    std::string fileVal, lineVal;
};
static std::string word(Rand& r, bool punct) {
    static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    static const char b[] = "abzAZ09_-=#@./:,;()[]{}!?+*~^%&'\"\\";
    std::string s; int n = (int)r.range(1, r.flip(0.05) ? 300 : 12);
    for (int i = 0; i < n; ++i) s += punct ? b[r.below(sizeof b - 1)] : a[r.below(sizeof a - 1)];
    return s;
}
static std::string num(double d, int prec = 6) { std::ostringstream o; o.precision(prec); o << d; return o.str(); }
static std::string textOf(Kind k, Rand& r) {
    switch (k) {
    case INT: return r.flip(0.2) ? r.pick(std::vector<std::string>{"0", "-1", "2147483647", "-2147483648"}) : cat(r.range(-100000, 100000));
    case UNS: return r.flip(0.2) ? r.pick(std::vector<std::string>{"0", "1", "4294967295"}) : cat(r.range(0, 100000));
    case LONG: return cat(r.range(-4000000000000L, 4000000000000L));
    case DBL: return r.flip(0.2) ? r.pick(std::vector<std::string>{"0", "-0.5", "1e+10", "1e-10", "-3.25", "123456", "0.000123456"}) : num(r.real(-1000, 1000));
    case STR: return word(r, r.flip());
    case BOOL: return r.flip() ? "1" : "0";
    case PP: { std::string s = word(r, false); int n = (int)r.below(4); if (n) { s += "("; for (int i = 0; i < n; ++i) s += (i ? "," : "") + num((double)r.range(-50, 50) / 4); s += ")"; } return s; }
    case VEC: { int n = (int)r.below(6); std::string s = cat(n); const char* sep = r.flip() ? "," : ";"; for (int i = 0; i < n; ++i) s += sep + num((double)r.range(-500, 500) / 8); return s; }
    case HOWMANY: return r.flip() ? cat(r.range(-30, 30)) : num((double)r.range(1, 300)) + "%";
    default: return "";
    }
}
// the value a text stands for, in a canonical form
static std::vector<double> vecOf(const std::string& s) { std::string t = s; for (auto& c : t) if (c == ',' || c == ';') c = ' '; std::istringstream i(t); unsigned n = 0; i >> n; std::vector<double> v(n); for (auto& x : v) i >> x; return v; }
static std::string canon(Kind k, const std::string& s) {
    if (k == VEC) return show(vecOf(s), 1000);
    if (k == DBL) return num(std::strtod(s.c_str(), 0), 17);
    if (k == HOWMANY) { bool pc = s.back() == '%'; double d = std::strtod(s.c_str(), 0); std::ostringstream o; for (unsigned n : {1u, 7u, 40u, 1000u}) { long c = pc ? (long)(unsigned)std::ceil(d / 100 * n) : d >= 0 ? (long)d : (long)n + (long)d; o << (!pc && d < 0 && c < 0 ? 0 : c) << " "; } return o.str(); }
    return s;
}
static std::string howMany(eoHowMany h) { std::ostringstream o; for (unsigned n : {1u, 7u, 40u, 1000u}) { try { o << h(n) << " "; } catch (std::exception&) { o << "0 "; } } return o.str(); }

// the program side: create a parameter and look at its value
struct Probe { virtual ~Probe() {} virtual std::string see() = 0; virtual std::string byName(eoParser& p, const std::string& n) = 0; virtual eoParam& param() = 0; };
template <class T> struct P : Probe {
    eoValueParam<T>* v; Kind k;
    static std::string str(const T& x, Kind) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
    std::string see() { return str(v->value(), k); }
    std::string byName(eoParser& p, const std::string& n) { return str(p.valueOf<T>(n), k); }
    eoParam& param() { return *v; }
};
template <> std::string P<std::vector<double>>::str(const std::vector<double>& x, Kind) { return show(x, 1000); }
template <> std::string P<eoHowMany>::str(const eoHowMany& x, Kind) { return howMany(x); }
template <class T> T parse(const std::string& s) { std::istringstream i(s); T x; i >> x; return x; }
template <> std::vector<double> parse(const std::string& s) { return vecOf(s); }
template <> eoParamParamType parse(const std::string& s) { return eoParamParamType(s); }
template <> eoHowMany parse(const std::string& s) { eoHowMany h; std::istringstream i(s); h.readFrom(i); return h; }
template <class T> Probe* declare(eoParser& p, const Spec& s, int how, std::vector<eoParam*>& own) {
    P<T>* q = new P<T>; q->k = s.kind;
    if (how == 0) q->v = &p.createParam(parse<T>(s.def), s.longName, "about " + s.longName + " = --fake=1 -f2", s.shortName, s.section, s.required);
    else if (how == 1) q->v = &p.getORcreateParam(parse<T>(s.def), s.longName, "some text", s.shortName, s.section, s.required);
    else { q->v = new eoValueParam<T>(parse<T>(s.def), s.longName, "No description", s.shortName, s.required); own.push_back(q->v); p.processParam(*q->v, s.section); }
    return q;
}
static Probe* declareAny(eoParser& p, const Spec& s, int how, std::vector<eoParam*>& own) {
    switch (s.kind) {
    case INT: return declare<int>(p, s, how, own); case UNS: return declare<unsigned>(p, s, how, own); case LONG: return declare<long>(p, s, how, own);
    case DBL: return declare<double>(p, s, how, own); case STR: return declare<std::string>(p, s, how, own); case BOOL: return declare<bool>(p, s, how, own);
    case PP: return declare<eoParamParamType>(p, s, how, own); case VEC: return declare<std::vector<double>>(p, s, how, own); default: return declare<eoHowMany>(p, s, how, own);
    }
}
struct Args { std::vector<std::string> s; std::vector<char*> v; char** argv() { v.clear(); for (auto& x : s) v.push_back(&x[0]); v.push_back(0); return v.data(); } unsigned argc() { return (unsigned)s.size(); } };
static std::string spell(const Spec& s, bool shortForm, const std::string& val, Rand& r) {
    if (s.kind == BOOL && val == "1" && r.flip(0.4)) return shortForm ? std::string("-") + s.shortName : "--" + s.longName;
    if (!shortForm) return "--" + s.longName + "=" + val;
    // -xvalue is only unambiguous when the value does not start with '='
    return std::string("-") + s.shortName + (r.flip() || val[0] == '=' ? "=" : "") + val;
}
static std::vector<Spec> makeSpecs(Rand& r, unsigned n) {
    std::vector<Spec> v; std::set<std::string> names{"help", "stopOnUnknownParam", "fake", "status"}; std::set<char> shorts{'h', 'f', 0};
    for (unsigned i = 0; i < n; ++i) {
        Spec s; s.kind = (Kind)r.below(KINDS);
        do { s.longName = word(r, false); if (r.flip(0.2) && !v.empty()) s.longName = r.pick(v).longName + s.longName; if (r.flip(0.2)) s.longName += "-x"; } while (!names.insert(s.longName).second);
        s.shortName = 0;
        if (r.flip(0.6)) { static const char c[] = "abcdegijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; char x = c[r.below(sizeof c - 1)]; if (shorts.insert(x).second) s.shortName = x; }
        s.section = r.pick(std::vector<std::string>{"", "Alpha", "beta section", "Z"});
        s.required = r.flip(0.15);
        s.def = textOf(s.kind, r);
        v.push_back(s);
    }
    return v;
}
static std::string expected(const Spec& s) { return canon(s.kind, s.inLine ? s.lineVal : s.inFile ? s.fileVal : s.def); }

UNIT(settings, 2500, 60000, "from_line,from_file,line_over_file,default,short_form,long_form,written_back,unknown_reported,required_reported,asked_unknown,asked_wrong_type,prefix,near_miss") {
    Quiet q;
    auto specs = makeSpecs(r, (unsigned)r.size(1, r.flip(0.05) ? 60 : 14));
    Args a; a.s.push_back("prog"); std::vector<std::string> line; std::vector<std::string> file;
    std::string prefix = r.flip(0.15) ? "pre_" : "";
    bool useFile = r.flip(0.6);
    for (auto& s : specs) {
        if (useFile && r.flip(0.5)) { s.inFile = true; s.fileShort = s.shortName && r.flip(0.4); s.fileVal = textOf(s.kind, r); }
        if (r.flip(0.5)) { s.inLine = true; s.lineShort = s.shortName && r.flip(0.4); s.lineVal = textOf(s.kind, r); }
        Spec named = s; named.longName = prefix + s.longName;
        if (s.inFile) { if (r.flip(0.2)) file.push_back("# --" + named.longName + "=1234 not this"); std::string t = spell(named, s.fileShort, s.fileVal, r); if (r.flip(0.5)) t += r.flip() ? " # a comment with --" + named.longName + "=77" : "   \t"; file.push_back(t); }
        if (s.inLine) {
            if (r.flip(0.1)) line.push_back(spell(named, s.lineShort, textOf(s.kind, r), r)); // given twice, the last one counts
            line.push_back(spell(named, s.lineShort, s.lineVal, r));
        }
    }
    // the last spelling of each parameter has to stay last
    if (r.flip(0.5)) { std::vector<std::string> t; for (size_t i = line.size(); i-- > 0;) t.push_back(line[i]); bool dup = false; std::set<std::string> seen; for (auto& x : line) { std::string k = x.compare(0, 2, "--") == 0 ? x.substr(0, x.find('=')) : x.substr(0, 2); dup |= !seen.insert(k).second; } if (!dup) { line = t; r.shuffle(line); } }
    bool unknownLong = r.flip(0.1), unknownShort = r.flip(0.05), unknown = unknownLong || unknownShort;
    // names nobody declared, some of them close to a declared one
    std::string stranger = "zzz_nobody", strange = "-%";
    if (unknownLong && r.flip(0.7)) {
        std::string near = prefix + r.pick(specs).longName;
        switch (r.below(4)) { case 0: near.pop_back(); break; case 1: near += "z"; break; case 2: near = near.substr(1); break; default: for (char& c : near) c = (char)std::toupper(c); }
        bool taken = near.empty() || near[0] == '-' || near == "help" || near == "stopOnUnknownParam";
        for (auto& s : specs) taken |= prefix + s.longName == near;
        if (!taken) { stranger = near; event("near_miss"); }
    }
    if (unknownShort && r.flip()) {
        static const char c[] = "abcdegijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        char x = c[r.below(sizeof c - 1)];
        bool taken = false;
        for (auto& s : specs) taken |= s.shortName == x;
        if (!taken) strange = std::string("-") + x;
    }
    if (unknownLong) line.insert(line.begin() + (long)r.below(line.size() + 1), "--" + stranger + (r.flip() ? "=3" : ""));
    if (unknownShort) line.insert(line.begin() + (long)r.below(line.size() + 1), strange);
    std::string fname = cat(scratch(), "/param");
    if (useFile) {
        std::ofstream o(fname); bool sect = r.flip(0.3);
        if (sect) o << "\\section{other}\n--" << prefix << specs[0].longName << "=99\n\n\\section{eoParser}\n";
        for (auto& l : file) o << l << (r.flip(0.1) ? "\n\n" : "\n");
        if (sect) o << "\\section{tail}\n--" << prefix << specs[0].longName << "=98\n";
        o.close();
        line.insert(line.begin() + (long)r.below(line.size() + 1), "@" + fname);
    }
    a.s.insert(a.s.end(), line.begin(), line.end());
    std::string shown = show(a.s, 100) + " file " + show(file, 100);
    std::vector<eoParam*> own; std::vector<Probe*> probes; u64 h = hstr(shown);
    {
        eoParser parser(a.argc(), a.argv(), "a program");
        parser.setPrefix(prefix); if (!prefix.empty()) event("prefix");
        bool missing = false;
        for (auto& s : specs) { probes.push_back(declareAny(parser, s, (int)r.below(3), own)); missing |= s.required && !s.inLine && !s.inFile; }
        for (size_t i = 0; i < specs.size(); ++i) {
            const Spec& s = specs[i]; std::string got = probes[i]->see(), want = expected(s);
            CHECK(got == want, s.inLine && s.inFile ? "precedence" : "value-differs", "parameter ", s.longName, "/", s.shortName, ": program sees ", got, " instead of ", want, " with ", shown);
            CHECK(probes[i]->byName(parser, s.longName) == got, "value-of", s.longName);
            CHECK(parser.isItThere(probes[i]->param()) == (s.inLine || s.inFile), "is-it-there", s.longName, " ", shown);
            CHECK(parser.isItThere(s.longName) == (s.inLine || s.inFile), "is-it-there", s.longName, " ", shown);
            CHECK(parser.get(s.longName) == probes[i]->param().getValue(), "get", s.longName);
            CHECK(parser.getParamWithLongName(s.longName) == &probes[i]->param(), "lookup", s.longName);
            event(s.inLine && s.inFile ? "line_over_file" : s.inLine ? "from_line" : s.inFile ? "from_file" : "default");
            if (s.inLine) event(s.lineShort ? "short_form" : "long_form");
            state(mix(h, mix(i, hstr(got))));
            // asking again for an existing parameter gives the same one
            if (s.kind == INT) CHECK(&parser.getORcreateParam(123454321, s.longName, "again") == &probes[i]->param(), "get-or-create", s.longName);
        }
        CHECK(parser.getParamWithLongName("never_declared") == 0, "lookup-unknown", shown);
        // a parameter nobody declared, or of another type
        int asked = 0;
        try { parser.valueOf<int>("never_declared"); } catch (eoMissingParamException& e) { ++asked; CHECK(e.message().find("never_declared") != std::string::npos, "message", e.message()); }
        try { parser.getParam("never_declared"); } catch (eoMissingParamException&) { ++asked; }
        try { parser.getValueParam<int>("never_declared"); } catch (eoMissingParamException&) { ++asked; }
        try { parser.get("never_declared"); } catch (eoMissingParamException&) { ++asked; }
        try { parser.isItThere(std::string("never_declared")); } catch (eoMissingParamException&) { ++asked; }
        CHECK(asked == 5, "unknown-not-reported", asked, " of 5 ways reported");
        event("asked_unknown");
        int wrong = 0;
        for (auto& s : specs) if (s.kind != INT) {
            try { parser.valueOf<int>(s.longName); } catch (eoWrongParamTypeException&) { wrong |= 1; }
            try { parser.getValueParam<int>(s.longName); } catch (std::exception&) { wrong |= 2; }
            try { parser.getORcreateParam(1, s.longName, "x"); } catch (std::exception&) { wrong |= 4; }
            CHECK(wrong == 7, "wrong-type-not-reported", wrong); event("asked_wrong_type"); break;
        }
        // reporting
        bool stop = !unknown || r.flip(0.8);
        parser.setStopOnUnknownParam(stop);
        bool needs = parser.userNeedsHelp();
        bool should = missing || (unknown && stop);
        CHECK(needs == should, "help-wanted", "reported ", needs, " expected ", should, " with ", shown);
        std::ostringstream help; if (needs) parser.printHelp(help);
        if (unknown && stop) { CHECK(!unknownLong || help.str().find("--" + stranger + " ") != std::string::npos, "unknown-not-reported", help.str()); CHECK(!unknownShort || help.str().find(strange) != std::string::npos, "unknown-not-reported", help.str()); event("unknown_reported"); }
        if (missing) { for (auto& s : specs) if (s.required && !s.inLine && !s.inFile) CHECK(help.str().find(prefix + s.longName) != std::string::npos, "missing-not-reported", s.longName, " in ", help.str()); event("required_reported"); }
        // write out and read back
        std::string out = cat(scratch(), "/status");
        { std::ofstream o(out); o << parser; }
        Args b; b.s = {"prog2", "@" + out};
        std::vector<eoParam*> own2; std::vector<Probe*> again;
        {
            eoParser p2(b.argc(), b.argv());
            p2.setPrefix(prefix);
            std::vector<size_t> order; for (size_t i = 0; i < specs.size(); ++i) order.push_back(i); r.shuffle(order);
            again.resize(specs.size());
            for (size_t i : order) again[i] = declareAny(p2, specs[i], (int)r.below(3), own2);
            for (size_t i = 0; i < specs.size(); ++i) CHECK(again[i]->see() == probes[i]->see(), "written-back", specs[i].longName, " was ", probes[i]->see(), " reads back ", again[i]->see());
            for (size_t i = 0; i < specs.size(); ++i) CHECK(p2.isItThere(again[i]->param()) == (specs[i].inLine || specs[i].inFile), "written-back", specs[i].longName, " given or not");
            p2.setStopOnUnknownParam(true);
            if (!unknown) CHECK(p2.userNeedsHelp() == missing, "written-back-help", shown);
            event("written_back");
        }
        for (auto p : again) delete p; for (auto p : own2) delete p;
    }
    sample(shown);
    for (auto p : probes) delete p; for (auto p : own) delete p;
}

// reading further settings later, forcing values, help, status files and missing files
UNIT(programs, 1200, 20000, "later,forced,help,status,no_file,parametric") {
    Quiet q;
    {   // settings read after the parameters were declared reach them
        Args a; a.s = {"prog", "--alpha=3", "-b2.5"};
        eoParser p(a.argc(), a.argv());
        auto& al = p.createParam(1, "alpha", "", 'a'); auto& be = p.createParam(1.0, "beta", "", 'b'); auto& ga = p.createParam(std::string("x"), "gamma", "", 'g');
        int x = (int)r.range(-99, 99); double y = (double)r.range(-99, 99) / 4; std::string z = word(r, r.flip());
        int which = (int)r.below(8); std::ostringstream o;
        if (which & 1) o << (r.flip() ? "--alpha=" : "-a") << x << "\n"; if (which & 2) o << (r.flip() ? "--beta=" : "-b=") << y << (r.flip() ? "\n" : " "); if (which & 4) o << (r.flip() ? "--gamma=" : "-g=") << z << "\n";
        std::istringstream i(o.str()); p.readFrom(i);
        CHECK(al.value() == (which & 1 ? x : 3), "later", "alpha ", al.value(), " after ", o.str());
        CHECK(be.value() == (which & 2 ? y : 2.5), "later", "beta ", be.value(), " after ", o.str());
        CHECK(ga.value() == (which & 4 ? z : "x"), "later", "gamma ", ga.value(), " after ", o.str());
        event("later"); state(hstr(o.str()));
    }
    {   // a value forced by the program
        Args a; a.s = {"prog"}; bool given = r.flip(), sh = r.flip(); if (given) a.s.push_back(sh ? "-k5" : "--kappa=5");
        eoParser p(a.argc(), a.argv());
        int v = (int)r.range(-50, 50); double w = (double)r.range(-50, 50) / 2;
        auto& k = p.setORcreateParam(v, "kappa", "", 'k'); auto& l = p.setORcreateParam(w, "lambda", "");
        CHECK(k.value() == v, "forced", "kappa ", k.value(), " forced to ", v, " given ", given); CHECK(l.value() == w, "forced", "lambda");
        CHECK(!p.userNeedsHelp(), "forced-help", "forced parameters reported as unknown");
        std::string out = cat(scratch(), "/forced"); { std::ofstream o(out); o << p; }
        Args b; b.s = {"prog", "@" + out}; eoParser p2(b.argc(), b.argv());
        CHECK(p2.createParam(0, "kappa", "", 'k').value() == v && p2.createParam(0.0, "lambda", "").value() == w, "forced-written", "forced value lost");
        event("forced");
    }
    {   // help and status file
        Args a; a.s = {"prog"}; int want = (int)r.below(4); std::string st = cat(scratch(), "/st", r.below(3)); unlink(st.c_str());
        if (want == 1) a.s.push_back("-h"); if (want == 2) a.s.push_back("--help"); if (want == 3) a.s.push_back("--nope=1");
        int n = (int)r.range(0, 1000); a.s.push_back(cat("--popSize=", n)); a.s.push_back("--status=" + st); r.shuffle(a.s); auto it = std::find(a.s.begin(), a.s.end(), std::string("prog")); std::iter_swap(a.s.begin(), it);
        eoParser p(a.argc(), a.argv(), "describes itself");
        auto& ps = p.createParam(20, "popSize", "Population size", 'P', "Evolution"); p.createParam(0.1, "pm", "rate", 'm', "Variation");
        CHECK(ps.value() == n, "value-differs", "popSize ", ps.value());
        std::ostringstream o; make_help(p, false, o);
        CHECK(o.str().empty() == (want == 0), "help", "wanted ", want, " printed: ", o.str());
        if (want == 1 || want == 2) CHECK(o.str().find("popSize") != std::string::npos && o.str().find("describes itself") != std::string::npos && o.str().find("-m") != std::string::npos, "help", o.str());
        if (want == 3) CHECK(o.str().find("nope") != std::string::npos, "help", o.str());
        Args b; b.s = {"other", "@" + st}; if (r.flip()) b.s.push_back("--pm=0.75");
        eoParser p2(b.argc(), b.argv());
        CHECK(p2.createParam(20, "popSize", "", 'P').value() == n, "status", "popSize not in the status file");
        CHECK(p2.createParam(0.1, "pm", "").value() == (b.s.size() == 3 ? 0.75 : 0.1), "status", "pm");
        event("help"); event("status");
    }
    {
        Args a; a.s = {"prog", cat("@", scratch(), "/does-not-exist")}; bool told = false;
        try { eoParser p(a.argc(), a.argv()); } catch (eoException& e) { told = e.message().find("does-not-exist") != std::string::npos; }
        CHECK(told, "no-file", "missing parameter file not reported"); event("no_file");
    }
    {   // name(arg,arg) values
        std::string name = word(r, false); std::vector<std::string> args; int n = (int)r.below(5); for (int i = 0; i < n; ++i) args.push_back(word(r, false));
        std::string t = name; if (n) { t += "("; for (int i = 0; i < n; ++i) t += (i ? "," : "") + args[(size_t)i]; t += ")"; }
        eoParamParamType x(t); CHECK(x.first == name && x.second == args, "parametric", t);
        std::ostringstream o; o << x; CHECK(o.str() == t, "parametric", t, " written as ", o.str());
        std::istringstream i(t + " next"); eoParamParamType y("z(1,2)"); i >> y; CHECK(y.first == name && y.second == args, "parametric", t, " read again"); std::string nx; i >> nx; CHECK(nx == "next", "parametric", "left ", nx);
        event("parametric"); state(hstr(t));
    }
}
