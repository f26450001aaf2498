// P13: lookup through chains of variables maps.
#include "common.hpp"
using namespace t; using pbt::Ctx;

namespace {
// A user-defined map class.
class Custom : public po::abstract_variables_map {
public:
    std::map<string, po::variable_value> m; po::variable_value none;
    Custom() {}
    explicit Custom(const po::abstract_variables_map* n) : po::abstract_variables_map(n) {}
private:
    const po::variable_value& get(const string& name) const override { auto i = m.find(name); return i == m.end() ? none : i->second; }
};
struct Cell {
    int value = 0; bool defaulted = false; Kind kind = KInt;
    MV mv() const { return make_mv(kind, {std::to_string(value)}); }
    boost::any any() const { return kind == KInt ? boost::any(value) : kind == KString ? boost::any(std::to_string(value)) : boost::any(vector<int>(1, value)); }
};
struct Node {
    std::unique_ptr<po::variables_map> vm; std::unique_ptr<Custom> cm; int next = -1;
    std::map<string, std::optional<Cell>> m;      // nullopt: present without a value
    std::set<string> fin; 
    po::abstract_variables_map* base() { return vm ? static_cast<po::abstract_variables_map*>(vm.get()) : cm.get(); }
};
const vector<Kind> KINDS = {KInt, KInt, KString, KVecInt};
const vector<string> NAMES = {"a", "b", "ab", "", "c.d"};

std::optional<Cell> model_at(const vector<Node>& ns, int i, const string& name)
{
    // first own value; then the rule of the property, iteratively from the end of the chain
    vector<int> chain; for (int k = i; k >= 0; k = ns[k].next) chain.push_back(k);
    std::optional<Cell> r;
    for (size_t k = chain.size(); k-- > 0; ) {
        auto it = ns[chain[k]].m.find(name); std::optional<Cell> own; if (it != ns[chain[k]].m.end()) own = it->second;
        if (!own) continue;                          // missing: the rest decides
        if (!own->defaulted) r = own;                // explicit wins
        else if (!(r && !r->defaulted)) r = own;     // a default yields only to an explicit value
    }
    return r;
}
void run(Ctx& c)
{
    vector<Node> ns; int counter = 0; string log; size_t chained = 0, multi = 0; std::set<string> seen;
    auto note = [&](const string& s) { log += s + "\n"; if (c.describing()) c.out() << s << "\n"; c.key(s); };
    auto reaches = [&](int from, int to) { for (int k = from; k >= 0; k = ns[k].next) if (k == to) return true; return false; };
    auto verify = [&](int i, const string& name) {
        auto want = model_at(ns, i, name); po::abstract_variables_map* b = ns[i].base();
        const po::variable_value& got = (ns[i].vm && c.coin()) ? (*ns[i].vm)[name] : (*b)[name];
        string g = got.empty() ? "nothing" : any_to_mv(got.value()).show() + (got.defaulted() ? " (default)" : ""), w = !want ? "nothing" : want->mv().show() + (want->defaulted ? " (default)" : "");
        if (got.empty() != !want || (want && (any_to_mv(got.value()) != want->mv() || got.defaulted() != want->defaulted))) c.fail("after\n" + log + "map " + std::to_string(i) + "[" + pbt::esc(name) + "] is " + g + " instead of " + w);
        if (want && want->kind == KInt && got.as<int>() != want->value) c.fail("as<int>() differs");
        if (want && want->kind == KString && got.as<string>() != std::to_string(want->value)) c.fail("as<string>() differs");
        if (!want && got.defaulted() && false) c.fail("");
        if (ns[i].next >= 0) ++chained;
        if (want && !(ns[i].m.count(name) && ns[i].m[name] && ns[i].m[name]->value == want->value)) { ++multi; c.label(ns[i].m.count(name) && ns[i].m[name] ? "default overridden by the chain" : "found further down"); }
        else if (want && want->defaulted) c.label("own default kept");
        else if (want) c.label("own explicit value");
        else c.label("nowhere");
    };
    size_t ops = 3 + c.size(14, 120);
    for (size_t k = 0; k < ops; ++k) {
        unsigned op = ns.empty() ? 0 : c.weighted({12, 30, 18, 8, 6, 4, 3, 25, 4});
        int i = ns.empty() ? 0 : int(c.below(ns.size()));
        switch (op) {
        case 0: { // a new map, perhaps linked at construction
            if (ns.size() >= 8) break;
            Node n; int next = ns.empty() || c.chance(1, 3) ? -1 : int(c.below(ns.size())); const po::abstract_variables_map* nb = next < 0 ? nullptr : ns[next].base();
            bool custom = c.chance(1, 4), unlinked = !nb && c.coin();
            if (custom) n.cm.reset(unlinked ? new Custom : new Custom(nb)); else n.vm.reset(unlinked ? new po::variables_map : new po::variables_map(nb));
            n.next = next; ns.push_back(std::move(n)); note("map " + std::to_string(ns.size() - 1) + (custom ? " (user class)" : "") + " -> " + std::to_string(next)); break; }
        case 1: { // put a value
            const string& name = c.pick(NAMES); Cell x; x.value = ++counter; x.defaulted = c.coin(); x.kind = c.pick(KINDS); bool none = c.chance(1, 10); Node& n = ns[i];
            po::variable_value v = none ? po::variable_value() : po::variable_value(x.any(), x.defaulted);
            if (n.vm) { n.vm->erase(name); n.vm->insert(std::make_pair(name, v)); } else n.cm->m[name] = v;
            n.m[name] = none ? std::nullopt : std::optional<Cell>(x); n.fin.insert(name);
            note("map " + std::to_string(i) + "[" + pbt::esc(name) + "] = " + (none ? "empty" : x.mv().show() + (x.defaulted ? " default" : ""))); break; }
        case 2: { // store parsed options with defaults
            Node& n = ns[i]; if (!n.vm) break;
            po::options_description d; int da = ++counter, db = ++counter, va = ++counter; bool has_db = c.coin(); 
            bool text = c.chance(1, 3);   // maps of a chain need not agree on the type of an option
            if (text) d.add_options()("a", po::value<string>()->default_value(std::to_string(da)), ""); else d.add_options()("a", po::value<int>()->default_value(da), "");
            d.add_options()("ab", po::value<int>(), "");
            if (has_db) d.add_options()("b", po::value<int>()->default_value(db), "");
            vector<string> t; bool ga = c.coin(), gab = c.chance(1, 3), gb = has_db && c.chance(1, 4);
            // values put there directly by the application are not stored over
            for (auto& q : {string("a"), string("b"), string("ab")}) if (n.fin.count(q)) { if (q == "a") ga = false; else if (q == "b") gb = false; else gab = false; }
            std::map<string, int> expl; if (ga) { t.push_back("--a=" + std::to_string(va)); expl["a"] = va; } if (gab) { t.push_back("--ab=" + std::to_string(++counter)); expl["ab"] = counter; } if (gb) { t.push_back("--b=" + std::to_string(++counter)); expl["b"] = counter; }
            po::store(po::command_line_parser(t).options(d).run(), *n.vm);
            for (auto& e : expl) { n.m[e.first] = Cell{e.second, false, text && e.first == "a" ? KString : KInt}; n.fin.insert(e.first); }
            if (!n.m.count("a")) n.m["a"] = Cell{da, true, text ? KString : KInt}; if (has_db && !n.m.count("b")) n.m["b"] = Cell{db, true};
            note("map " + std::to_string(i) + " store " + pbt::esc(t) + " defaults a=" + std::to_string(da) + (has_db ? " b=" + std::to_string(db) : "")); break; }
        case 3: case 4: { // relink or unlink
            int to = op == 4 ? -1 : int(c.below(ns.size())); if (to >= 0 && reaches(to, i)) break;
            ns[i].base()->next(to < 0 ? nullptr : ns[to].base()); ns[i].next = to; note("map " + std::to_string(i) + " -> " + std::to_string(to)); c.label(to < 0 ? "unlink" : "relink"); break; }
        case 5: { // remove a value
            const string& name = c.pick(NAMES); Node& n = ns[i]; if (n.vm) n.vm->erase(name); else n.cm->m.erase(name); n.m.erase(name); if (n.vm) n.fin.insert(name); note("map " + std::to_string(i) + " erase " + pbt::esc(name)); break; }
        case 6: { Node& n = ns[i]; if (!n.vm) break; n.vm->clear(); n.m.clear(); n.fin.clear(); note("map " + std::to_string(i) + " clear"); break; }   // stays linked
        case 8: { // a copy has the values and the link of the original
            int j = int(c.below(ns.size())); Node &n = ns[i], &m = ns[j]; if (!n.vm || !m.vm) break; if (i != j && m.next >= 0 && reaches(m.next, i)) break;
            *n.vm = c.coin() ? po::variables_map(*m.vm) : *m.vm; n.m = m.m; n.fin = m.fin; n.next = m.next; note("map " + std::to_string(i) + " = map " + std::to_string(j)); c.label("assigned map"); break; }
        case 7: default: verify(i, c.pick(NAMES)); break;
        }
        // own contents never change through links
        if (!ns.empty()) { int j = int(c.below(ns.size())); if (ns[j].vm && ns[j].vm->size() != ns[j].m.size()) c.fail("after\n" + log + "map " + std::to_string(j) + " has " + std::to_string(ns[j].vm->size()) + " entries instead of " + std::to_string(ns[j].m.size())); }
    }
    for (size_t i = 0; i < ns.size(); ++i) { for (auto& q : NAMES) verify(int(i), q); verify(int(i), "never put anywhere"); }
    size_t longest = 0; for (size_t i = 0; i < ns.size(); ++i) { size_t l = 0; for (int k = int(i); k >= 0; k = ns[k].next) ++l; longest = std::max(longest, l); }
    c.label(longest >= 4 ? "chain of 4 or more" : longest == 3 ? "chain of 3" : longest == 2 ? "chain of 2" : "no chain");
    if (chained && multi) c.nontrivial();
}
}
int main(int argc, char** argv)
{
    pbt::Property P;
    P.id = "P13"; P.run = run; P.quick = 600000; P.thorough = 20000000;
    P.rule = "a history over up to eight maps (variables_map and a user-defined class): creation, linking, relinking, unlinking, values with and without default marks, stores of parsed options, erasing, clearing; every name is looked up in every map against a model. Non-trivial: some lookup in a linked map was answered by another map";
    return pbt::engine_main(argc, argv, P);
}
