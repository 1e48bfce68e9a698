// C10 merkle tree: root and every layer equal the recursive definition, for any history.
#include "pbt.hpp"
#include <thread>
#include "ref_digest.hpp"
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/utils.hpp"
#include "dottorrent/merkle_tree.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a history on up to two trees of up to 70 (rarely 600 or 9000) leaves: resizing with or without a fill value, setting leaves from one or several threads, updating, "
    "copying and moving; non-trivial: a tree whose leaf count is not a power of two was updated after leaves changed";

namespace {
template <dt::hash_function F> struct world {
    using tree = dt::merkle_tree<F>;
    using value = typename tree::value_type;
    static constexpr std::size_t N = value::size_bytes;
    static std::string dig(std::string_view s) { return N == 20 ? ref::sha1(s) : ref::sha256(s); }

    struct model { std::vector<std::string> leaves; std::vector<std::vector<std::string>> layers; };   // layers: root first, as of the last update

    static void compute(model& m)
    {
        std::vector<std::vector<std::string>> up{m.leaves};
        while (up.back().size() > 1) {
            std::vector<std::string> n;
            for (std::size_t i = 0; i < up.back().size(); i += 2) n.push_back(dig(up.back()[i] + up.back()[i + 1]));
            up.push_back(std::move(n));
        }
        m.layers.assign(up.rbegin(), up.rend());
    }
    static std::string s(const value& v) { return std::string(std::string_view(v)); }

    static void compare(tree& t, const model& m, const char* what)
    {
        auto leaves = m.leaves.size();
        VP_EQ(t.leaf_count(), leaves, << what); VP_EQ(t.node_count(), 2 * leaves - 1, << what);
        std::size_t h = 0; while ((std::size_t(1) << h) < leaves) ++h;
        VP_EQ(t.tree_height(), h, << what);
        for (std::size_t i = 0; i < leaves; ++i) VP_REQUIRE(s(t.get_leaf(i)) == m.leaves[i], << what << ": leaf " << i << " of " << leaves);
        if (m.layers.empty()) return;
        VP_REQUIRE(s(t.root()) == m.layers[0][0], << what << ": root of " << leaves << " leaves is " << ref::hex(s(t.root())) << " expected " << ref::hex(m.layers[0][0]));
        for (std::size_t l = 0; l <= h; ++l) {
            auto span = t.get_layer(l);
            VP_EQ(span.size(), m.layers[l].size(), << what << " layer " << l);
            for (std::size_t i = 0; i < span.size(); ++i) {
                VP_REQUIRE(s(span[i]) == m.layers[l][i], << what << ": layer " << l << " node " << i);
                VP_REQUIRE(s(t.get_node(l, i)) == m.layers[l][i], << what << ": get_node " << l << "," << i);
            }
        }
        VP_EQ(t.has_root(), m.layers[0][0] != std::string(N, '\0'), << what);
    }

    static void run(vp::gen& g)
    {
        auto count = [&] { return g.chance(1, 500) ? 1 + g.draw(9000) : g.chance(4) ? 1 + g.draw(600) : 1 + g.size(70); };
        auto hash = [&] { value v{}; auto b = g.chance(15) ? std::string(N, '\0') : g.blob(N); std::memcpy(v.data(), b.data(), N); return v; };
        auto resized = [](std::size_t n, const std::string& fill) { std::size_t p = 1; while (p < n) p *= 2; model m; m.leaves.assign(p, fill); return m; };
        bool ragged = false, interesting = false, dirty = false;
        auto n0 = count();
        std::unique_ptr<tree> t; model m;
        if (g.boolean()) { t = std::make_unique<tree>(n0); m = resized(n0, std::string(N, '\0')); }
        else { auto v = hash(); t = std::make_unique<tree>(n0, v); m = resized(n0, s(v)); }
        ragged = n0 != m.leaves.size();
        auto ops = 1 + g.size(14);
        for (std::size_t k = 0; k < ops; ++k) {
            switch (g.weighted({3, 8, 3, 7, 2, 2, 1})) {
            case 0: {
                auto n = count();
                if (g.boolean()) { t->set_leaf_nodes(n); m = resized(n, std::string(N, '\0')); }
                else { auto v = hash(); t->set_leaf_nodes(n, v); m = resized(n, s(v)); }
                ragged = n != m.leaves.size(); dirty = true;
                break;
            }
            case 1: {
                auto n = 1 + g.size(12);
                for (std::size_t i = 0; i < n; ++i) { auto x = g.draw(m.leaves.size() - 1); auto v = hash(); t->set_leaf(x, v); m.leaves[x] = s(v); }
                m.layers.clear(); dirty = true;
                break;
            }
            case 2: {   // all leaves, from several threads, distinct indices
                auto threads = 2 + g.draw(2); auto seed = g.draw(~0ULL >> 1);
                auto val = [&](std::size_t i) { return dig(std::to_string(seed) + "/" + std::to_string(i)); };
                for (std::size_t i = 0; i < m.leaves.size(); ++i) m.leaves[i] = val(i);
                if (g.chance(10)) {
                    std::vector<std::vector<std::pair<std::size_t, value>>> part(threads);
                    for (std::size_t i = 0; i < m.leaves.size(); ++i) { value v{}; std::memcpy(v.data(), m.leaves[i].data(), N); part[i % threads].push_back({i, v}); }
                    std::vector<std::thread> ts;
                    for (auto& p : part) ts.emplace_back([&t, &p] { for (auto& [i, v] : p) t->set_leaf(i, v); });
                    for (auto& x : ts) x.join();
                    g.label("leaves set by several threads");
                }
                else for (std::size_t i = 0; i < m.leaves.size(); ++i) { value v{}; std::memcpy(v.data(), m.leaves[i].data(), N); t->set_leaf(i, v); }
                m.layers.clear(); dirty = true;
                break;
            }
            case 3: {
                if (g.boolean()) t->update(); else { auto h = dt::make_hasher(F); t->update(*h); }
                compute(m);
                compare(*t, m, "after update");
                interesting |= ragged && dirty; dirty = false;
                if (!m.layers.empty()) {
                    auto l = g.draw(m.layers.size() - 1); auto a = g.draw(m.layers[l].size() - 1), b = a + g.draw(m.layers[l].size() - a);
                    auto r = t->get_node_range(l, a, b);
                    VP_EQ(r.size(), b - a);
                    for (std::size_t i = 0; i < r.size(); ++i) VP_REQUIRE(s(r[i]) == m.layers[l][a + i], << "get_node_range layer " << l << " from " << a << " to " << b);
                }
                break;
            }
            case 4: {
                tree copy(*t);
                compare(copy, m, "copy");
                value v = hash(); auto x = g.draw(m.leaves.size() - 1);
                copy.set_leaf(x, v);
                compare(*t, m, "after changing a copy");
                break;
            }
            case 5: {
                tree other(count());
                if (g.boolean()) { tree& r = (other = *t); VP_REQUIRE(&r == &other); compare(*t, m, "source of an assignment"); }
                else { tree& r = (other = std::move(*t)); VP_REQUIRE(&r == &other); *t = other; }
                compare(other, m, "assignment");
                tree& self = *t; *t = self; compare(*t, m, "self assignment"); *t = std::move(self); compare(*t, m, "self move");
                break;
            }
            default: { auto p = std::make_unique<tree>(std::move(*t)); t = std::move(p); compare(*t, m, "move"); break; }
            }
            if (g.chance(20)) compare(*t, m, "history");
        }
        t->update(); compute(m); compare(*t, m, "final update");
        g.nontrivial(interesting);
        if (m.leaves.size() == 1) g.label("single leaf");
        if (ragged) g.label("leaf count not a power of two");
        g.note() << n0 << " leaves, " << ops << " operations, ends with " << m.leaves.size() << " leaves, root " << ref::hex(m.layers[0][0]).substr(0, 16);
    }
};
}

void vp::property(gen& g)
{
    if (g.chance(20)) { g.label("sha1"); world<dt::hash_function::sha1>::run(g); }
    else { g.label("sha256"); world<dt::hash_function::sha256>::run(g); }
}
