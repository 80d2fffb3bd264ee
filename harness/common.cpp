// Line-oriented driver for the parts of src/common that need no stencil: the command-line parser, FD coefficients,
// tuples and integer arithmetic. Reads commands from a file, writes one line per command.
// Strings are hex-encoded ("-" for the empty string), doubles are hex floats.
#include "yask_assert.hpp"
#include "yask_common_api.hpp"
#include "tuple.hpp"
#include "combo.hpp"
#include "idiv.hpp"
#include <fstream>
#include <mutex>
using namespace std;
using namespace yask;
typedef vector<string> SV;

static string unhex(const string& h) {
    string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(stoi(h.substr(i, 2), 0, 16));
    return r;
}
static string hexs(const string& s) {
    static const char* d = "0123456789abcdef";
    if (s.empty()) return "-";
    string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static SV split(const string& s, char c) {
    SV r; string x; stringstream ss(s);
    while (getline(ss, x, c)) r.push_back(x);
    return r;
}

// ---- parser
static string do_parse(const SV& a) {
    // parse WIDTH MODE OPTIONS ARGS ; OPTIONS = name:type:initial[:allowed+allowed],...; ARGS = hex,hex,... or one hex string.
    command_line_parser p;
    map<string, bool> B; map<string, int> I; map<string, idx_t> X; map<string, double> D; map<string, string> S; map<string, string_vec> L;
    vector<pair<string, char>> order;
    p.set_width(stoi(a[1]));
    for (auto& o : split(a[3] == "-" ? "" : a[3], ',')) {
        auto f = split(o, ':');
        string n = unhex(f[0]), h = "help for this option with several words of text";
        char t = f[1][0]; string v = f[2];
        order.push_back({n, t});
        command_line_parser::option_ptr op;
        if (t == 'b') { B[n] = v == "1"; op = make_shared<command_line_parser::bool_option>(n, h, B[n]); }
        if (t == 'i') { I[n] = stoi(v); op = make_shared<command_line_parser::int_option>(n, h, I[n]); }
        if (t == 'x') { X[n] = stoll(v); op = make_shared<command_line_parser::idx_option>(n, h, X[n]); }
        if (t == 'd') { D[n] = strtod(v.c_str(), 0); op = make_shared<command_line_parser::double_option>(n, h, D[n]); }
        if (t == 's') { S[n] = unhex(v); op = make_shared<command_line_parser::string_option>(n, h, S[n]); }
        if (t == 'l') {
            if (v != "-") for (auto& x : split(v, '+')) L[n].push_back(unhex(x));
            set<string> al;
            if (f.size() > 3) for (auto& x : split(f[3], '+')) al.insert(unhex(x));
            op = al.size() ? make_shared<command_line_parser::string_list_option>(n, h, al, L[n])
                : make_shared<command_line_parser::string_list_option>(n, h, L[n]);
        }
        p.add_option(op);
    }
    SV args;
    if (a[4] != "=") for (auto& x : split(a[4], ',')) args.push_back(unhex(x));
    string rem, ex;
    try {
        if (a[2] == "vec") rem = p.parse_args("pgm", args);
        if (a[2] == "str") rem = p.parse_args("pgm", args.at(0));
        if (a[2] == "argv") {
            vector<char*> av; string pg = "pgm";
            av.push_back(&pg[0]);
            for (auto& s : args) av.push_back(&s[0]);
            av.push_back(nullptr);
            rem = p.parse_args(int(av.size()) - 1, av.data());
        }
    } catch (yask_exception& e) { return "ex"; }
    ostringstream o;
    o << "rem=" << hexs(rem);
    o.precision(17);
    for (auto& nt : order) {
        auto& n = nt.first;
        o << " " << hexs(n) << "=";
        switch (nt.second) {
        case 'b': o << B[n]; break;
        case 'i': o << I[n]; break;
        case 'x': o << X[n]; break;
        case 'd': o << hexfloat << D[n] << defaultfloat; break;
        case 's': o << hexs(S[n]); break;
        case 'l': { bool f = true; for (auto& x : L[n]) { o << (f ? "" : "+") << hexs(x); f = false; } if (f) o << "."; } break;
        }
    }
    ostringstream vs, hs;
    p.print_values(vs);
    p.print_help(hs);
    o << " values=" << hexs(vs.str()) << " help=" << hexs(hs.str());
    return o.str();
}

// ---- fd
static string vecd(const vector<double>& v) {
    ostringstream o;
    o << hexfloat;
    for (auto x : v) o << x << " ";
    return o.str();
}
static string do_fd(const SV& a) {
    try {
        int m = stoi(a[2]);
        if (a[1] == "center") return vecd(get_center_fd_coefficients(m, stoi(a[3])));
        if (a[1] == "forward") return vecd(get_forward_fd_coefficients(m, stoi(a[3])));
        if (a[1] == "backward") return vecd(get_backward_fd_coefficients(m, stoi(a[3])));
        vector<double> pts;
        for (size_t i = 4; i < a.size(); i++) pts.push_back(strtod(a[i].c_str(), 0));
        return vecd(get_arbitrary_fd_coefficients(m, strtod(a[3].c_str(), 0), pts));
    } catch (yask_exception& e) { return "ex"; }
}

// ---- tuples: "x=3,y=4" or "." for no dims
template <typename T>
static Tuple<T> tup(const string& s, bool fi) {
    Tuple<T> t;
    t.set_first_inner(fi);
    if (s != ".")
        for (auto& f : split(s, ',')) {
            auto e = f.find('=');
            t.add_dim_back(f.substr(0, e), T(stoll(f.substr(e + 1))));
        }
    return t;
}
template <typename T>
static string ts(const Tuple<T>& t) {
    auto s = t.make_dim_val_str(",");
    return s.empty() ? "." : s;
}
template <typename T>
static string do_tup(const SV& a) {
    // tup TYPE FI OP TUPLE args…
    bool fi = a[2] == "1";
    auto& op = a[3];
    auto t = tup<T>(a[4], fi);
    ostringstream o;
    if (op == "layout") { o << t.layout(tup<T>(a[5], fi), a[6] == "1"); }
    else if (op == "unlayout") { o << ts(t.unlayout(stoull(a[5]))); }
    else if (op == "visit") {
        // visit TUPLE stop_at
        idx_t stop = stoll(a[5]); idx_t n = 0;
        bool r = t.visit_all_points([&](const Tuple<T>& p, size_t i, int th) { o << i << ":" << p.make_val_str(",") << " "; return ++n != stop; });
        o << "ret" << r;
    }
    else if (op == "pvisit") {
        yask_num_threads[0] = stoi(a[5]); yask_num_threads[1] = stoi(a[6]);
        omp_set_max_active_levels(yask_num_threads[1] > 1 ? 2 : 1);
        mutex mx; vector<string> r;
        t.visit_all_points_in_parallel([&](const Tuple<T>& p, size_t i, int th) {
            ostringstream s; s << i << ":" << p.make_val_str(",");
            lock_guard<mutex> g(mx); r.push_back(s.str()); return true; });
        for (auto& s : r) o << s << " ";
        yask_num_threads[0] = yask_num_threads[1] = 0;
    }
    else if (op == "red") { o << t.sum() << " " << t.product() << " " << t.min() << " " << t.max(); }
    else if (op == "comb") {
        auto r = tup<T>(a[5], fi); bool st = a[6] == "1";
        o << ts(t.add_elements(r, st)) << " " << ts(t.sub_elements(r, st)) << " " << ts(t.mult_elements(r, st)) << " "
          << ts(t.min_elements(r, st)) << " " << ts(t.max_elements(r, st));
    }
    else if (op == "map") {
        T v = T(stoll(a[5]));
        o << ts(t.add_elements(v)) << " " << ts(t.sub_elements(v)) << " " << ts(t.mult_elements(v)) << " " << ts(t.min_elements(v)) << " "
          << ts(t.max_elements(v)) << " " << ts(t.neg_elements()) << " " << ts(t.abs_elements());
    }
    else if (op == "fact") { o << ts(t.get_compact_factors(T(stoll(a[5])))); }
    else if (op == "cmp") {
        auto r = tup<T>(a[5], fi);
        o << (t == r) << (t != r) << (t < r) << (t <= r) << (t > r) << (t >= r) << t.are_dims_same(r, false) << t.are_dims_same(r, true)
          << (std::hash<Tuple<T>>()(t) == std::hash<Tuple<T>>()(r));
    }
    else if (op == "edit") {
        // A sequence of edits: back:x=3 front:.. at2:.. rm:x rmp:1 set:x=4 sets+:TUPLE sets-:TUPLE uni:TUPLE same:5 next
        for (size_t i = 5; i < a.size(); i++) {
            auto c = a[i].find(':');
            string k = a[i].substr(0, c), v = a[i].substr(c + 1);
            auto e = v.find('=');
            string n = v.substr(0, e);
            T x = e == string::npos ? T(0) : T(stoll(v.substr(e + 1)));
            if (k == "back") t.add_dim_back(n, x);
            else if (k == "front") t.add_dim_front(n, x);
            else if (k.substr(0, 2) == "at") t.add_dim_at(stoi(k.substr(2)), n, x);
            else if (k == "rm") t = t.remove_dim(v);
            else if (k == "rmp") t = t.remove_dim(stoi(v));
            else if (k == "set") t.set_val(n, x);
            else if (k == "sets+") t.set_vals(tup<T>(v, fi), true);
            else if (k == "sets-") t.set_vals(tup<T>(v, fi), false);
            else if (k == "uni") t = t.make_union_with(tup<T>(v, fi));
            else if (k == "same") t.set_vals_same(T(stoll(v)));
            o << ts(t) << "|" << t.get_num_dims() << " ";
            for (auto& d : t.get_dim_names()) o << t.lookup_posn(d) << "/" << t.get_val(d) << "/" << t[t.lookup_posn(d)] << " ";
        }
    }
    else if (op == "next") {
        auto p = tup<T>(a[5], fi);
        for (int i = 0; i < stoi(a[6]); i++) { t.next_index(p); o << ts(p) << " "; }
    }
    else if (op == "str") {
        o << hexs(t.make_val_str(a[5], a[6], a[7])) << " " << hexs(t.make_dim_str(a[5], a[6], a[7])) << " "
          << hexs(t.make_dim_val_str(a[5], "=", a[6], a[7])) << " " << hexs(t.make_dim_val_offset_str(a[5], a[6], a[7]));
    }
    return o.str();
}
template <typename T>
static string do_idiv(const SV& a) {
    T x = T(stoll(a[2])), y = T(stoll(a[3]));
    ostringstream o;
    o << (long long)idiv_flr<T>(x, y) << " " << (long long)imod_flr<T>(x, y) << " " << (long long)ceil_idiv_flr<T>(x, y) << " "
      << (long long)round_up_flr<T>(x, y) << " " << (long long)round_down_flr<T>(x, y);
    return o.str();
}

int main(int argc, char** argv) {
    ifstream in(argv[1]);
    ofstream out(argv[2]);
    string l;
    while (getline(in, l)) {
        SV a; string w; stringstream ss(l);
        while (ss >> w) a.push_back(w);
        string r;
        try {
            if (a[0] == "tok") {
                try { r = "ok"; for (auto& s : command_line_parser::set_args(unhex(a[1]))) r += " " + hexs(s); }
                catch (yask_exception& e) { r = "ex"; }
            }
            else if (a[0] == "parse") r = do_parse(a);
            else if (a[0] == "fd") r = do_fd(a);
            else if (a[0] == "tup") r = a[1] == "int" ? do_tup<int>(a) : do_tup<idx_t>(a);
            else if (a[0] == "idiv") r = a[1] == "int" ? do_idiv<int>(a) : do_idiv<idx_t>(a);
            else if (a[0] == "choose") {
                int n = stoi(a[1]), k = stoi(a[2]); ostringstream o; int c = n_choose_k(n, k); o << c;
                for (int i = 0; i < c; i++) o << " " << n_choose_k_set(n, k, i);
                r = o.str();
            }
            else if (a[0] == "divq") {
                idx_t n = stoll(a[1]), p = stoll(a[2]); ostringstream o;
                auto all = div_equally_all_sizes<idx_t>(n, p);
                for (idx_t i = 0; i < p; i++) o << div_equally_size_n<idx_t>(n, p, i) << "/" << div_equally_cumu_size_n<idx_t>(n, p, i) << "/" << all[i] << " ";
                o << div_equally_cumu_size_n<idx_t>(n, p, -1);
                r = o.str();
            }
            else if (a[0] == "parfor") {
                // parfor END STRIDE T0 T1 DYN
                idx_t e = stoll(a[1]), s = stoll(a[2]);
                yask_num_threads[0] = stoi(a[3]); yask_num_threads[1] = stoi(a[4]);
                omp_set_max_active_levels(yask_num_threads[1] > 1 ? 2 : 1);
                mutex mx; vector<pair<idx_t, idx_t>> v; int n = yask_get_num_threads(); bool ok = true;
                yask_parallel_for(0, e, s, [&](idx_t b, idx_t x, idx_t t) {
                    lock_guard<mutex> g(mx); v.push_back({b, x}); if (t < 0 || t >= n) ok = false; });
                yask_num_threads[0] = yask_num_threads[1] = 0;
                sort(v.begin(), v.end());
                ostringstream o; o << ok;
                for (auto& p : v) o << " " << p.first << "-" << p.second;
                r = o.str();
            }
            else r = "?";
        }
        catch (yask_exception& e) { r = string("ex"); }
        catch (exception& e) { r = string("stdex ") + e.what(); }
        out << r << endl;
    }
    out << "DONE" << endl;
    return 0;
}
