// Drives the test module (what=tests) and the application object (what=app).
#include "common.hpp"
#include <deque>
#include <list>
#include <sstream>
#include <cmp/core/test_module.hpp>
#include <cmp/core/application.hpp>

struct Mod;
static void act(Mod&, int fn);
static bool result;
struct Mod : cmp::test_module<Mod> {
    explicit Mod(std::vector<test_function_pointer> v) : cmp::test_module<Mod>(std::move(v)) {}
    template <int I> bool t() { act(*this, I); return result; }
};
using Msg = cmp::test_module<Mod>::message;
using Dummy = cmp::test_module<Mod>::dummy;
static Mod::test_function_pointer fns[] = {&Mod::t<0>, &Mod::t<1>, &Mod::t<2>, &Mod::t<3>, &Mod::t<4>, &Mod::t<5>, &Mod::t<6>, &Mod::t<7>};
static const char* name(Msg m) {
    switch (m) {
    case Msg::empty: return "empty";
    case Msg::constructor_called: return "constructor";
    case Msg::copy_constructor_called: return "copy";
    case Msg::move_constructor_called: return "move";
    case Msg::destructor_called: return "destructor";
    }
    return "unknown";
}
static Msg msg_of(const std::string& s) {
    return s == "constructor" ? Msg::constructor_called : s == "copy" ? Msg::copy_constructor_called
         : s == "move" ? Msg::move_constructor_called : s == "destructor" ? Msg::destructor_called : Msg::empty;
}
static const J* bodies;          // one list of operations for each call of a test function
static std::size_t calls;
static std::map<long long, std::unique_ptr<Dummy>> dummies;
static std::deque<std::string> names;      // test names live as long as the process
static W* out;
static void op1(Mod& m, const J& e) {
    const std::string& op = e["op"].s;
    W& w = *out;
    w.O().k("op").s(op);
    if (op == "start") {
        names.push_back(e["name"].s);
        m.start_test(names.back().c_str());
        w.k("name").s(e["name"].s);
    } else if (op == "stage") m.end_stage();
    else if (op == "push") { m.push_message(msg_of(e["m"].s)); w.k("m").s(e["m"].s); }
    else if (op == "pop") w.k("got").s(name(m.pop_message()));
    else if (op == "count") w.k("got").i(m.get_message_count());
    else if (op == "clear") m.clear_message_queue();
    else if (op == "info") { m.log_info() << e["text"].s << '\n'; w.k("text").s(e["text"].s); }
    else if (op == "error") { m.log_error() << e["text"].s << '\n'; w.k("text").s(e["text"].s); }
    else if (op == "dmake") { dummies[e["d"].n].reset(e.has("v") ? new Dummy(&m, (int)e["v"].n) : new Dummy(&m)); w.k("d").i(e["d"].n).k("v").i(e.has("v") ? e["v"].n : 0); }
    else if (op == "dcopy") { dummies[e["d"].n].reset(new Dummy(*(const Dummy*)dummies[e["from"].n].get())); w.k("d").i(e["d"].n).k("from").i(e["from"].n); }
    else if (op == "dmove") { dummies[e["d"].n].reset(new Dummy(std::move(*dummies[e["from"].n]))); w.k("d").i(e["d"].n).k("from").i(e["from"].n); }
    else if (op == "dset") { dummies[e["d"].n]->set_value((int)e["v"].n); w.k("d").i(e["d"].n).k("v").i(e["v"].n); }
    else if (op == "dget") { w.k("d").i(e["d"].n).k("got").i(dummies[e["d"].n]->get_value()); }
    else if (op == "ddrop") { dummies[e["d"].n].reset(); w.k("d").i(e["d"].n); }
    else if (op == "return") { result = e["ok"].n != 0; w.k("ok").b(result); }
    else std::_Exit(3);
    w.o();
}
static void act(Mod& m, int fn) {
    out->O().k("op").s("enter").k("fn").i(fn).o();
    if (calls >= bodies->size()) { result = true; out->O().k("op").s("toomany").o(); return; }
    const J& b = (*bodies)[calls++];
    for (auto& e : b.a) op1(m, e);
}
static void tests(const J& j, W& w) {
    out = &w;
    std::vector<Mod::test_function_pointer> v;
    for (auto& f : j["tests"].a) v.push_back(fns[f.n]);
    std::ostringstream so, se;
    auto* bo = std::cout.rdbuf(so.rdbuf());
    auto* be = std::cerr.rdbuf(se.rdbuf());
    w.O().k("tests").A();
    for (auto& f : j["tests"].a) w.i(f.n);
    w.a().k("ev").A();
    {
        Mod m(v);
        for (auto& r : j["runs"].a) {
            for (auto& e : r["before"].a) op1(m, e);
            so.str("");
            se.str("");
            bodies = &r["bodies"];
            calls = 0;
            w.O().k("op").s("run").o();
            int failed = m.run_tests();
            w.O().k("op").s("done").k("got").i(failed).k("out").s(so.str()).k("err").s(se.str()).o();
        }
        dummies.clear();
    }
    std::cout.rdbuf(bo);
    std::cerr.rdbuf(be);
    w.a().o();
}
// ------------------------------------------------------------------------------------------------ application
struct Own : cmp::application {
    int r;
    Own(int argc, char** argv, int r) : cmp::application(argc, argv), r(r) {}
    Own(Own&&) = default;
    int run() override { return r; }
};
static char* table[8][8];
static void apps(const J& j, W& w) {
    std::map<long long, std::unique_ptr<cmp::application>> a;
    w.O().k("ev").A();
    for (auto& e : j["ops"].a) {
        const std::string& op = e["op"].s;
        w.O().k("op").s(op);
        if (e.has("o")) w.k("o").i(e["o"].n);
        if (op == "make") {
            char** argv = table[e["argv"].n];
            if (e["own"].n) a[e["o"].n].reset(new Own((int)e["argc"].n, argv, (int)e["r"].n));
            else a[e["o"].n].reset(new cmp::application((int)e["argc"].n, argv));
            w.k("argc").i(e["argc"].n).k("argv").i(e["argv"].n).k("own").b(e["own"].n).k("r").i(e["r"].n);
        } else if (op == "notice") {
            std::u8string t;
            for (auto& x : e["text"].a) t += (char8_t)x.n;
            std::u8string_view v = t;
            a[e["o"].n]->set_copyright_notice(v);
            w.k("text").units(t);
            for (auto& c : t) c = u8'?';        // the view's text is gone afterwards
        } else if (op == "drop") a[e["o"].n].reset();
        else if (op == "look") ;
        else std::_Exit(3);
        // what can be seen: through each object, and which one app() is
        w.k("seen").A();
        for (int o = 1; o <= 3; ++o) {
            auto i = a.find(o);
            w.O();
            if (i != a.end() && i->second) {
                cmp::application& x = *i->second;
                long long at = -1;
                for (int k = 0; k < 8; ++k) if (x.get_argv() == table[k]) at = k;
                w.k("live").b(true).k("argc").i(x.get_argc()).k("argv").i(at).k("notice").units(x.get_copyright_notice()).k("run").i(x.run());
            } else w.k("live").b(false);
            w.o();
        }
        w.a();
        long long who = 0;
        for (auto& [o, p] : a) if (p && p.get() == cmp::app()) who = o;
        if (!cmp::app()) who = -1;
        bool same = cmp::app() == cmp::application::get_instance_ptr();
        w.k("app").i(who).k("same").b(same).o();
    }
    w.a().o();
}
int main() {
    return script_loop([](const J& j, W& w) { if (j["what"].s == "tests") tests(j, w); else apps(j, w); });
}
