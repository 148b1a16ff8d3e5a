// Library client of the simulator: a scripted user of libhfst's public API. Each operation it is
// given is carried out with real library calls, and what the caller would observe (value or
// exception) is reported as an event. It holds no model and judges nothing.
#include "rpc.h"
#include "HfstTransducer.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include "HfstExceptionDefs.h"
#include "HfstFlagDiacritics.h"
#include "HfstTokenizer.h"
#include "implementations/HfstBasicTransducer.h"
#include "parsers/XreCompiler.h"
#include "parsers/LexcCompiler.h"
#include "parsers/PmatchCompiler.h"
#include "parsers/XfstCompiler.h"
#include "parsers/SfstCompiler.h"
#include "parsers/TwolcCompiler.h"
#include "implementations/optimized-lookup/pmatch.h"
#include "implementations/optimized-lookup/pmatch_tokenize.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

using namespace hfst;
using hfst::implementations::HfstBasicTransducer;
using hfst::implementations::HfstBasicTransition;

typedef std::vector<std::string> SV;

static std::string dec(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else r += s[i];
    return r;
}
static std::string enc(const std::string &s) {
    std::string r;
    char b[4];
    for (unsigned char c : s)
        if (c <= ' ' || c == '%' || c == 127) { snprintf(b, sizeof b, "%%%02X", c); r += b; }
        else r += (char)c;
    return r.empty() ? std::string("%") : r;   // a lone % is the empty string
}
static SV split(const std::string &s, char d) {
    SV r;
    size_t p = 0;
    for (;;) {
        size_t q = s.find(d, p);
        r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) return r;
        p = q + 1;
    }
}
static std::string field(const std::string &s) { return s == "%" ? std::string() : dec(s); }
static std::string num(float w) { char b[64]; snprintf(b, sizeof b, "%.9g", (double)w); return b; }

static ImplementationType type_of(const std::string &s) {
    if (s == "tropical") return TROPICAL_OPENFST_TYPE;
    if (s == "log") return LOG_OPENFST_TYPE;
    if (s == "sfst") return SFST_TYPE;
    if (s == "foma") return FOMA_TYPE;
    if (s == "ol") return HFST_OL_TYPE;
    if (s == "olw") return HFST_OLW_TYPE;
    throw std::runtime_error("client: bad type " + s);
}
static std::string type_name(ImplementationType t) {
    switch (t) {
    case TROPICAL_OPENFST_TYPE: return "tropical";
    case LOG_OPENFST_TYPE: return "log";
    case SFST_TYPE: return "sfst";
    case FOMA_TYPE: return "foma";
    case HFST_OL_TYPE: return "ol";
    case HFST_OLW_TYPE: return "olw";
    default: return "type" + std::to_string((int)t);
    }
}

static HfstBasicTransducer parse_net(const SV &lines, size_t from) {
    HfstBasicTransducer b;
    for (size_t i = from; i < lines.size(); i++) {
        SV f = split(lines[i], '\t');
        if (f[0] == "a")
            b.add_transition(atoi(f[1].c_str()), HfstBasicTransition(atoi(f[2].c_str()), dec(f[3]), dec(f[4]), strtof(f[5].c_str(), nullptr)));
        else if (f[0] == "f")
            b.set_final_weight(atoi(f[1].c_str()), strtof(f[2].c_str(), nullptr));
        else if (f[0] == "s")
            b.add_symbol_to_alphabet(dec(f[1]));
    }
    return b;
}
static std::string show_net(const HfstBasicTransducer &b, const StringSet *alpha) {
    std::ostringstream o;
    unsigned s = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++s) {
        for (auto t = it->begin(); t != it->end(); ++t)
            o << "a\t" << s << "\t" << t->get_target_state() << "\t" << enc(t->get_input_symbol()) << "\t"
              << enc(t->get_output_symbol()) << "\t" << num(t->get_weight()) << "\n";
        if (b.is_final_state(s)) o << "f\t" << s << "\t" << num(b.get_final_weight(s)) << "\n";
    }
    if (alpha) for (auto &a : *alpha) o << "s\t" << enc(a) << "\n";
    return o.str();
}

struct World {
    std::map<std::string, std::unique_ptr<HfstTransducer>> t;
    std::map<std::string, std::unique_ptr<HfstInputStream>> in;
    std::map<std::string, std::unique_ptr<HfstOutputStream>> out;
    std::map<std::string, FILE *> files;
    std::map<std::string, HfstBasicTransducer> basic;
    std::map<std::string, std::unique_ptr<xre::XreCompiler>> xre;
    std::map<std::string, std::unique_ptr<xfst::XfstCompiler>> xfst;
    std::map<std::string, std::unique_ptr<lexc::LexcCompiler>> lexc;
    std::map<std::string, std::unique_ptr<pmatch::PmatchCompiler>> pmc;
    std::map<std::string, std::unique_ptr<hfst_ol::PmatchContainer>> pm;
    std::map<std::string, std::unique_ptr<std::ostringstream>> sinks;
    HfstTransducer &get(const std::string &v) {
        auto i = t.find(v);
        if (i == t.end() || !i->second) throw std::runtime_error("client: no variable " + v);
        return *i->second;
    }
    void set(const std::string &v, HfstTransducer *p) { t[v].reset(p); }
};

static std::string path1(const HfstOneLevelPath &p) {
    std::string s = num(p.first);
    for (auto &x : p.second) s += "\t" + enc(x);
    return s;
}
static std::string paths1(const HfstOneLevelPaths &ps) {
    std::string s;
    for (auto &p : ps) s += path1(p) + "\n";
    return s;
}
static std::string paths2(const HfstTwoLevelPaths &ps) {
    std::string s;
    for (auto &p : ps) {
        s += num(p.first);
        for (auto &x : p.second) s += "\t" + enc(x.first) + "\t" + enc(x.second);
        s += "\n";
    }
    return s;
}

static std::string unary(HfstTransducer &t, const SV &f, size_t k) {
    const std::string &op = f[k];
    auto I = [&](size_t i) { return (unsigned)atoi(f.at(k + i).c_str()); };
    auto S = [&](size_t i) { return dec(f.at(k + i)); };
    if (op == "invert") t.invert();
    else if (op == "reverse") t.reverse();
    else if (op == "input_project") t.input_project();
    else if (op == "output_project") t.output_project();
    else if (op == "repeat_star") t.repeat_star();
    else if (op == "repeat_plus") t.repeat_plus();
    else if (op == "repeat_n") t.repeat_n(I(1));
    else if (op == "repeat_n_plus") t.repeat_n_plus(I(1));
    else if (op == "repeat_n_minus") t.repeat_n_minus(I(1));
    else if (op == "repeat_n_to_k") t.repeat_n_to_k(I(1), I(2));
    else if (op == "optionalize") t.optionalize();
    else if (op == "determinize") t.determinize();
    else if (op == "minimize") t.minimize();
    else if (op == "optimize") t.optimize();
    else if (op == "remove_epsilons") t.remove_epsilons();
    else if (op == "prune") t.prune();
    else if (op == "push_weights") t.push_weights(I(1) ? TO_FINAL_STATE : TO_INITIAL_STATE);
    else if (op == "push_labels") t.push_labels(I(1) ? TO_FINAL_STATE : TO_INITIAL_STATE);
    else if (op == "n_best") t.n_best(I(1));
    else if (op == "negate") t.negate();
    else if (op == "substitute") t.substitute(S(1), S(2), I(3), I(4));
    else if (op == "substitute_pair") t.substitute(StringPair(S(1), S(2)), StringPair(S(3), S(4)));
    else if (op == "set_final_weights") t.set_final_weights(strtof(f.at(k + 1).c_str(), nullptr), I(2));
    else if (op == "insert_freely") t.insert_freely(StringPair(S(1), S(2)));
    else if (op == "eliminate_flags") t.eliminate_flags();
    else if (op == "prune_alphabet") t.prune_alphabet();
    else if (op == "convert") t.convert(type_of(f.at(k + 1)));
    else throw std::runtime_error("client: bad unary " + op);
    return "";
}
static float w_double(float w) { return 2 * w; }
static float w_half(float w) { return w / 2; }
static bool f_swap(const StringPair &p, StringPairSet &s) { // a:x becomes x:a and a:a, the rest stays
    if (p.first == "a" && p.second != "a") { s.insert(StringPair(p.second, "a")); s.insert(StringPair("a", "a")); return true; }
    return false;
}
static StringPairSet pairset(const SV &f, size_t k) {
    StringPairSet s;
    for (; k + 1 < f.size(); k += 2) s.insert(StringPair(dec(f[k]), dec(f[k + 1])));
    return s;
}
static StringPairVector pairvector(const SV &f, size_t k) {
    StringPairVector s;
    for (; k + 1 < f.size(); k += 2) s.push_back(StringPair(dec(f[k]), dec(f[k + 1])));
    return s;
}
static std::string symlist(const StringSet &v) { std::string s; for (auto &x : v) s += enc(x) + "\n"; return s; }

// more VAR operation arguments: further operations and questions on one transducer
static std::string more(HfstTransducer &t, const SV &f) {
    const std::string &op = f[2];
    auto S = [&](size_t i) { return dec(f.at(2 + i)); };
    auto F = [&](size_t i) { return strtof(f.at(2 + i).c_str(), nullptr); };
    if (op == "transform_weights") { t.transform_weights(S(1) == "double" ? w_double : w_half); return ""; }
    if (op == "subst_map") { HfstSymbolSubstitutions m; for (size_t i = 3; i + 1 < f.size(); i += 2) m[dec(f[i])] = dec(f[i + 1]); t.substitute(m); return ""; }
    if (op == "subst_pairmap") {
        HfstSymbolPairSubstitutions m;
        for (size_t i = 3; i + 3 < f.size(); i += 4) m[StringPair(dec(f[i]), dec(f[i + 1]))] = StringPair(dec(f[i + 2]), dec(f[i + 3]));
        t.substitute(m);
        return "";
    }
    if (op == "subst_pairset") { t.substitute(StringPair(S(1), S(2)), pairset(f, 5)); return ""; }
    if (op == "subst_func") { t.substitute(f_swap); return ""; }
    if (op == "disjunct_path") { t.disjunct(pairvector(f, 3)); return ""; }
    if (op == "eliminate_flag") { t.eliminate_flag(S(1)); return ""; }
    if (op == "is_automaton") return t.is_automaton() ? "1" : "0";
    if (op == "is_cyclic") return t.is_cyclic() ? "1" : "0";
    if (op == "is_infinitely_ambiguous") return t.is_infinitely_ambiguous() ? "1" : "0";
    if (op == "has_weights") return t.has_weights() ? "1" : "0";
    if (op == "has_flags") return t.has_flag_diacritics() ? "1" : "0";
    if (op == "longest") return std::to_string(t.longest_path_size(f.at(3) == "1"));
    if (op == "longest_paths") { HfstTwoLevelPaths r; bool b = t.extract_longest_paths(r, f.at(3) == "1"); return (b ? "1\n" : "0\n") + paths2(r); }
    if (op == "shortest_paths") { HfstTwoLevelPaths r; t.extract_shortest_paths(r); return paths2(r); }
    if (op == "initial_symbols") return symlist(t.get_initial_input_symbols());
    if (op == "first_symbols") return symlist(t.get_first_input_symbols());
    if (op == "alphabet") return symlist(t.get_alphabet());

    // the same through a HfstBasicTransducer
    if (op.compare(0, 2, "b_") != 0) throw std::runtime_error("client: bad operation " + op);
    HfstBasicTransducer b(t);
    auto I = [&](size_t i) { return (hfst::implementations::HfstState)atoi(f.at(2 + i).c_str()); };
    if (op == "b_same") ;
    else if (op == "b_substitute") b.substitute(S(1), S(2), f.at(5) == "1", f.at(6) == "1");
    else if (op == "b_subst_pair") b.substitute(StringPair(S(1), S(2)), StringPair(S(3), S(4)));
    else if (op == "b_subst_pairset") b.substitute(StringPair(S(1), S(2)), pairset(f, 5));
    else if (op == "b_insert_freely") b.insert_freely(StringPair(S(1), S(2)), F(3));
    else if (op == "b_insert_freely_set") b.insert_freely(pairset(f, 4), F(1));
    else if (op == "b_disjunct") b.disjunct(pairvector(f, 4), F(1));
    else if (op == "b_remove_pair") b.remove_transitions(StringPair(S(1), S(2)));
    else if (op == "b_add") b.add_transition(I(1), HfstBasicTransition(I(2), S(3), S(4), F(5)));
    else if (op == "b_remove") b.remove_transition(I(1), HfstBasicTransition(I(2), S(3), S(4), 0), f.at(7) == "1");
    else if (op == "b_final") b.set_final_weight(I(1), F(2));
    else if (op == "b_nonfinal") b.remove_final_weight(I(1));
    else if (op == "b_sort") b.sort_arcs();
    else if (op == "b_complete") b.complete();
    else if (op == "b_markers") { b.substitute_weights_with_markers(); b.substitute_markers_with_weights(); }
    else if (op == "b_copy") { HfstBasicTransducer c(b); b.add_transition(0, HfstBasicTransition(0, "copied", "copied", 0)); b = c; }
    else throw std::runtime_error("client: bad operation " + op);
    HfstTransducer n(b, t.get_type());
    t = n;
    return "";
}
static std::string binary(HfstTransducer &a, const std::string &op, HfstTransducer &b) {
    if (op == "concatenate") a.concatenate(b);
    else if (op == "disjunct") a.disjunct(b);
    else if (op == "intersect") a.intersect(b);
    else if (op == "subtract") a.subtract(b);
    else if (op == "compose") a.compose(b);
    else if (op == "cross_product") a.cross_product(b);
    else if (op == "shuffle") a.shuffle(b);
    else if (op == "priority_union") a.priority_union(b);
    else if (op == "lenient_composition") a.lenient_composition(b);
    else if (op == "insert_freely") a.insert_freely(b);
    else if (op == "compose_intersect") { HfstTransducerVector v; v.push_back(b); a.compose_intersect(v); }
    else throw std::runtime_error("client: bad binary " + op);
    return "";
}

static std::string locations(const hfst_ol::LocationVectorVector &v) {
    std::string s;
    for (auto &lv : v) {
        s += "#\n";
        for (auto &l : lv)
            s += std::to_string(l.start) + "\t" + std::to_string(l.length) + "\t" + enc(l.input) + "\t" + enc(l.output) + "\t" +
                 enc(l.tag) + "\t" + num(l.weight) + "\n";
    }
    return s;
}

static std::string perform(World &w, const std::string &text) {
    SV lines = split(text, '\n');
    SV f = split(lines[0], '\t');
    const std::string &op = f[0];
    if (op == "mk") { // var type \n net
        HfstBasicTransducer b = parse_net(lines, 1);
        w.set(f.at(1), new HfstTransducer(b, type_of(f.at(2))));
        return "";
    }
    if (op == "empty") { w.set(f.at(1), new HfstTransducer(type_of(f.at(2)))); return ""; }
    if (op == "name") { w.get(f.at(1)).set_name(field(f.at(2))); return ""; }
    if (op == "prop") { w.get(f.at(1)).set_property(field(f.at(2)), field(f.at(3))); return ""; }
    if (op == "getprop") return enc(w.get(f.at(1)).get_property(field(f.at(2))));
    if (op == "meta") {
        HfstTransducer &t = w.get(f.at(1));
        std::string s = "type\t" + type_name(t.get_type()) + "\nname\t" + enc(t.get_name()) + "\n";
        for (auto &p : t.get_properties()) s += "prop\t" + enc(p.first) + "\t" + enc(p.second) + "\n";
        return s;
    }
    if (op == "show") {
        HfstTransducer &t = w.get(f.at(1));
        StringSet alpha = t.get_alphabet();
        HfstBasicTransducer b(t);
        return show_net(b, &alpha);
    }
    if (op == "copy") { HfstTransducer *p = new HfstTransducer(w.get(f.at(2))); w.set(f.at(1), p); return ""; }
    if (op == "assign") { w.get(f.at(1)) = w.get(f.at(2)); return ""; }
    if (op == "drop") { w.t.erase(f.at(1)); return ""; }
    if (op == "un") return unary(w.get(f.at(1)), f, 2);
    if (op == "more") return more(w.get(f.at(1)), f);
    if (op == "b_bin") { // the same through HfstBasicTransducers: var op var sym sym
        HfstTransducer &a = w.get(f.at(1));
        HfstBasicTransducer x(a), y(w.get(f.at(3)));
        if (f.at(2) == "insert_freely") x.insert_freely(y);
        else if (f[2] == "substitute") x.substitute(StringPair(dec(f.at(4)), dec(f.at(5))), y);
        else if (f[2] == "harmonize") x.harmonize(y);
        HfstTransducer n(x, a.get_type());
        a = n;
        return "";
    }
    if (op == "bin") return binary(w.get(f.at(1)), f.at(2), w.get(f.at(3)));
    if (op == "subst_tr") { w.get(f.at(1)).substitute(StringPair(dec(f.at(2)), dec(f.at(3))), w.get(f.at(4))); return ""; }
    if (op == "compare") return w.get(f.at(1)).compare(w.get(f.at(2))) ? "1" : "0";
    if (op == "cyclic") return w.get(f.at(1)).is_cyclic() ? "1" : "0";
    if (op == "counts") { HfstTransducer &t = w.get(f.at(1)); return std::to_string(t.number_of_states()) + "\t" + std::to_string(t.number_of_arcs()); }
    if (op == "alpha+") { w.get(f.at(1)).insert_to_alphabet(dec(f.at(2))); return ""; }
    if (op == "alpha-") { w.get(f.at(1)).remove_from_alphabet(dec(f.at(2))); return ""; }
    // --- streams
    if (op == "outopen") { // stream file|- type hfst?
        ImplementationType ty = type_of(f.at(3));
        bool h = f.at(4) == "1";
        w.out[f[1]].reset(f.at(2) == "-" ? new HfstOutputStream(ty, h) : new HfstOutputStream(dec(f[2]), ty, h));
        return "";
    }
    if (op == "outwrite") { *w.out.at(f.at(1)) << w.get(f.at(2)); return ""; }
    if (op == "outflush") { w.out.at(f.at(1))->flush(); return ""; }
    if (op == "outclose") { w.out.at(f.at(1))->close(); return ""; }
    if (op == "outdel") { w.out.erase(f.at(1)); return ""; }
    if (op == "inopen") {
        w.in[f.at(1)].reset(f.at(2) == "-" ? new HfstInputStream() : new HfstInputStream(dec(f[2])));
        return type_name(w.in[f[1]]->get_type());
    }
    if (op == "ineof") return w.in.at(f.at(1))->is_eof() ? "1" : "0";
    if (op == "inbad") return w.in.at(f.at(1))->is_bad() ? "1" : "0";
    if (op == "ingood") return w.in.at(f.at(1))->is_good() ? "1" : "0";
    if (op == "inread") { HfstTransducer *p = new HfstTransducer(*w.in.at(f.at(1))); w.set(f.at(2), p); return ""; }
    if (op == "inclose") { w.in.at(f.at(1))->close(); return ""; }
    if (op == "indel") { w.in.erase(f.at(1)); return ""; }
    if (op == "fopen") { FILE *p = fopen(dec(f.at(2)).c_str(), f.at(3).c_str()); if (!p) return "null"; w.files[f[1]] = p; return ""; }
    if (op == "fclose") { int r = fclose(w.files.at(f.at(1))); w.files.erase(f[1]); return std::to_string(r); }
    if (op == "fputs") { fputs(dec(f.at(2)).c_str(), w.files.at(f.at(1))); return ""; }
    if (op == "ferror") return std::to_string(ferror(w.files.at(f.at(1))));
    if (op == "feof") { FILE *p = w.files.at(f.at(1)); int c = getc(p); if (c != EOF) ungetc(c, p); return c == EOF ? "1" : "0"; }
    if (op == "attwrite") { w.get(f.at(2)).write_in_att_format(w.files.at(f.at(1)), f.at(3) == "1"); return ""; }
    if (op == "attwritefile") { w.get(f.at(2)).write_in_att_format(dec(f.at(1)), f.at(3) == "1"); return ""; }
    if (op == "attread") { w.set(f.at(2), new HfstTransducer(w.files.at(f.at(1)), type_of(f.at(3)), f.size() > 4 ? dec(f[4]) : "@0@", false)); return ""; }
    if (op == "prologwrite") { w.get(f.at(2)).write_in_prolog_format(w.files.at(f.at(1)), dec(f.at(3)), f.at(4) == "1"); return ""; }
    if (op == "prologread") { // through the basic transducer, as hfst-txt2fst does
        unsigned int lc = 0;
        HfstBasicTransducer b = HfstBasicTransducer::read_in_prolog_format(w.files.at(f.at(1)), lc);
        w.set(f.at(2), new HfstTransducer(b, type_of(f.at(3))));
        return "";
    }
    // --- lookup and paths
    if (op == "lookup" || op == "lookup_fd" || op == "lookups" || op == "lookup_fds") { // var limit cutoff sym...  /  string
        HfstTransducer &t = w.get(f.at(1));
        ssize_t lim = atol(f.at(2).c_str());
        double cut = atof(f.at(3).c_str());
        std::unique_ptr<HfstOneLevelPaths> r;
        if (op == "lookups") r.reset(t.lookup(field(f.at(4)), lim, cut));
        else if (op == "lookup_fds") r.reset(t.lookup_fd(field(f.at(4)), lim, cut));
        else {
            StringVector v;
            for (size_t i = 4; i < f.size(); i++) v.push_back(dec(f[i]));
            if (op == "lookup") r.reset(t.lookup(v, lim, cut)); else r.reset(t.lookup_fd(v, lim, cut));
        }
        return paths1(*r);
    }
    if (op == "lookup_pairs") {
        std::unique_ptr<HfstTwoLevelPaths> r(w.get(f.at(1)).lookup_pairs(field(f.at(4)), atol(f.at(2).c_str()), atof(f.at(3).c_str())));
        return paths2(*r);
    }
    if (op == "basic") { w.basic[f.at(1)] = HfstBasicTransducer(w.get(f.at(2))); return ""; }
    if (op == "blookup") { // var cycles|- maxweight|- maxnumber flags? sym...
        size_t cyc = (size_t)atol(f.at(2).c_str());
        float mw = strtof(f.at(3).c_str(), nullptr);
        StringVector v;
        for (size_t i = 6; i < f.size(); i++) v.push_back(dec(f[i]));
        HfstTwoLevelPaths r;
        w.basic.at(f.at(1)).lookup(v, r, f[2] == "-" ? nullptr : &cyc, f[3] == "-" ? nullptr : &mw, atoi(f.at(4).c_str()), f.at(5) == "1");
        return paths2(r);
    }
    if (op == "binfinite") { StringVector v; for (size_t i = 3; i < f.size(); i++) v.push_back(dec(f[i])); return w.basic.at(f.at(1)).is_lookup_infinitely_ambiguous(v, f.at(2) == "1") ? "1" : "0"; }
    if (op == "infinite") { StringVector v; for (size_t i = 2; i < f.size(); i++) v.push_back(dec(f[i])); return w.get(f.at(1)).is_lookup_infinitely_ambiguous(v) ? "1" : "0"; }
    if (op == "random") { HfstTwoLevelPaths r; w.get(f.at(1)).extract_random_paths(r, atoi(f.at(2).c_str())); return paths2(r); }
    if (op == "random_fd") { HfstTwoLevelPaths r; w.get(f.at(1)).extract_random_paths_fd(r, atoi(f.at(2).c_str()), f.at(3) == "1"); return paths2(r); }
    if (op == "paths") { HfstTwoLevelPaths r; w.get(f.at(1)).extract_paths(r, atoi(f.at(2).c_str()), atoi(f.at(3).c_str())); return paths2(r); }
    if (op == "paths_fd") { HfstTwoLevelPaths r; w.get(f.at(1)).extract_paths_fd(r, atoi(f.at(2).c_str()), atoi(f.at(3).c_str()), f.at(4) == "1"); return paths2(r); }
    // --- compilers
    if (op == "xre_new") { w.xre[f.at(1)].reset(new xre::XreCompiler(type_of(f.at(2)))); w.xre[f[1]]->set_verbosity(false); w.sinks[f[1]].reset(new std::ostringstream); w.xre[f[1]]->set_error_stream(w.sinks[f[1]].get()); return ""; }
    if (op == "xre_def") return w.xre.at(f.at(1))->define(dec(f.at(2)), dec(f.at(3))) ? "1" : "0";
    if (op == "xre_deff") return w.xre.at(f.at(1))->define_function(dec(f.at(2)), atoi(f.at(3).c_str()), dec(f.at(4))) ? "1" : "0";
    if (op == "xre_undef") { w.xre.at(f.at(1))->undefine(dec(f.at(2))); return ""; }
    if (op == "xre_list") { std::set<std::string> v; for (size_t i = 3; i < f.size(); i++) v.insert(dec(f[i])); w.xre.at(f.at(1))->define_list(dec(f.at(2)), v); return ""; }
    if (op == "xre_isdef") return w.xre.at(f.at(1))->is_definition(dec(f.at(2))) ? "1" : "0";
    if (op == "xre_compile") {
        HfstTransducer *p = w.xre.at(f.at(1))->compile(dec(f.at(3)));
        if (!p) return "null";
        w.set(f.at(2), p);
        return "";
    }
    if (op == "xre_expand") { w.xre.at(f.at(1))->set_expand_definitions(f.at(2) == "1"); return ""; }
    if (op == "xre_del") { w.xre.erase(f.at(1)); return ""; }
    if (op == "xfst_new") { w.xfst[f.at(1)].reset(new xfst::XfstCompiler(type_of(f.at(2)))); w.xfst[f[1]]->setVerbosity(false); w.xfst[f[1]]->setReadInteractiveTextFromStdin(false); return ""; }
    if (op == "xfst_line") { std::string s = dec(f.at(2)); return std::to_string(w.xfst.at(f.at(1))->parse_line(s)); }
    if (op == "xfst_stack") { // compiler prefix: copies of the stack, from the top, into prefix0, prefix1, ...
        std::stack<HfstTransducer *> st(w.xfst.at(f.at(1))->get_stack());
        int n = 0;
        for (; !st.empty(); st.pop()) w.set(f.at(2) + std::to_string(n++), new HfstTransducer(*st.top()));
        return std::to_string(n);
    }
    if (op == "xfst_del") { w.xfst.erase(f.at(1)); return ""; }
    if (op == "lexc_new") { // compiler type flags
        auto c = new lexc::LexcCompiler(type_of(f.at(2)), f.at(3) == "1", f.at(4) == "1");
        w.lexc[f.at(1)].reset(c);
        w.sinks[f[1]].reset(new std::ostringstream);
        c->setVerbosity(0);
        return "";
    }
    if (op == "lexc_reset") { w.lexc.at(f.at(1))->reset(); return ""; }
    if (op == "lexc_parse") { w.lexc.at(f.at(1))->parse(dec(f.at(2)).c_str()); return ""; }
    if (op == "lexc_compile") {
        HfstTransducer *p = w.lexc.at(f.at(1))->compileLexical();
        if (!p) return "null";
        w.set(f.at(2), p);
        return "";
    }
    if (op == "lexc_del") { w.lexc.erase(f.at(1)); return ""; }
    if (op == "lexc_value") {
        HfstTransducer t = HfstTransducer::read_lexc(dec(f.at(3)), type_of(f.at(2)), false);
        w.set(f.at(1), new HfstTransducer(t));
        return "";
    }
    if (op == "pmc_new") { w.pmc[f.at(1)].reset(new pmatch::PmatchCompiler(type_of(f.at(2)))); w.pmc[f[1]]->set_verbose(false); w.pmc[f[1]]->set_include_path(dec(f.at(3))); return ""; }
    if (op == "pmc_def") { w.pmc.at(f.at(1))->define(dec(f.at(2)), dec(f.at(3))); return ""; }
    if (op == "pmc_compile") { // compiler prefix text
        auto m = w.pmc.at(f.at(1))->compile(dec(f.at(3)));
        std::string s;
        for (auto &kv : m) { w.set(f.at(2) + kv.first, kv.second); s += enc(kv.first) + "\n"; }
        return s;
    }
    if (op == "pmc_del") { w.pmc.erase(f.at(1)); return ""; }
    if (op == "twolc") // source target type
        return std::to_string(twolc::TwolcCompiler::compile(dec(f.at(1)), dec(f.at(2)), true, false, f.at(4) == "1", f.at(5) == "1", type_of(f.at(3))));
    if (op == "lexc") { // var type text...: a fresh compiler
        lexc::LexcCompiler c(type_of(f.at(2)));
        c.setVerbosity(0);
        std::string s = dec(f.at(3));
        c.parse(s.c_str());
        HfstTransducer *p = c.compileLexical();
        if (!p) return "null";
        w.set(f.at(1), p);
        return "";
    }
    if (op == "lexc_file") {
        HfstTransducer *p = HfstTransducer::read_lexc_ptr(dec(f.at(3)), type_of(f.at(2)), false);
        if (!p) return "null";
        w.set(f.at(1), p);
        return "";
    }
    if (op == "pmatch_compile") { // var prefix text: compiled transducers into var0, var1, ...
        pmatch::PmatchCompiler c;
        c.set_verbose(false);
        auto m = c.compile(dec(f.at(2)));
        std::string s;
        for (auto &kv : m) { w.set(f.at(1) + kv.first, kv.second); s += enc(kv.first) + "\n"; }
        return s;
    }
    if (op == "pm_load") { std::ifstream is(dec(f.at(2))); if (!is.good()) return "null"; w.pm[f.at(1)].reset(new hfst_ol::PmatchContainer(is)); return ""; }
    if (op == "pm_match") { std::string s = field(f.at(2)); return enc(w.pm.at(f.at(1))->match(s, atof(f.at(3).c_str()))); }
    if (op == "pm_locate") { std::string s = field(f.at(2)); return locations(w.pm.at(f.at(1))->locate(s, atof(f.at(3).c_str()))); }
    // --- plain output of the client itself
    if (op == "print") { std::string s = dec(f.at(1)); fwrite(s.data(), 1, s.size(), stdout); fflush(stdout); return ""; }
    throw std::runtime_error("client: bad operation " + op);
}

int client_main() {
    std::unique_ptr<World> w(new World);
    std::string op;
    while (sim::next_op(op)) {
        std::string r;
        try { r = "ok\t" + perform(*w, op); }
        catch (const HfstException &e) { r = "hfst\t" + e.name; }
        catch (const std::bad_alloc &) { r = "std\tbad_alloc"; }
        catch (const std::runtime_error &e) { r = strncmp(e.what(), "client:", 7) ? std::string("std\t") + e.what() : std::string("client\t") + e.what(); }
        catch (const std::exception &e) { r = std::string("std\t") + e.what(); }
        catch (const char *s) { r = std::string("other\t") + s; }
        catch (const std::string &s) { r = std::string("other\t") + s; }
        catch (...) { r = "other\t?"; }
        sim::event(r);
    }
    return 0;
}
