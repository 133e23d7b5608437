// Hash-consed expression graph behind the symbolic scalars.
#include <bits/stdc++.h>
#include <cstdint>

namespace
{
    struct Node {
        int32_t op;
        int64_t a, b;
        double v;
    };
    std::vector<Node> nodes(1, Node {1, -1, 0, 0.0}); // node 0: undefined
    std::map<double, int64_t> consts;
    std::unordered_map<uint64_t, std::vector<int64_t>> table;
    int (*callback)(int, int64_t, int64_t) = nullptr;
}

extern "C" {
void symf_reset()
{
    nodes.assign(1, Node {1, -1, 0, 0.0});
    consts.clear();
    table.clear();
}
void symf_set_callback(int (*f)(int, int64_t, int64_t)) { callback = f; }
int64_t symf_const(double v)
{
    if (v != v) return 0;
    auto it = consts.find(v);
    if (it != consts.end()) return it->second;
    nodes.push_back(Node {0, 0, 0, v});
    return consts[v] = (int64_t)nodes.size() - 1;
}
int64_t symf_leaf(int64_t tag)
{
    nodes.push_back(Node {1, tag, 0, 0.0});
    return (int64_t)nodes.size() - 1;
}
int64_t symf_op(int op, int64_t a, int64_t b)
{
    if ((op == 2 || op == 4) && a > b) std::swap(a, b);
    uint64_t h = ((uint64_t)op * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)a * 0xC2B2AE3D27D4EB4Full) ^ (((uint64_t)b << 21) * 0x165667B19E3779F9ull);
    auto &v = table[h];
    for (int64_t i : v)
        if (nodes[i].op == op && nodes[i].a == a && nodes[i].b == b) return i;
    nodes.push_back(Node {op, a, b, 0.0});
    v.push_back((int64_t)nodes.size() - 1);
    return (int64_t)nodes.size() - 1;
}
int symf_cmp(int op, int64_t a, int64_t b) { return callback ? callback(op, a, b) : -1; }
int64_t symf_count() { return (int64_t)nodes.size(); }
void symf_export(int64_t from, int64_t to, int32_t *op, int64_t *a, int64_t *b, double *v)
{
    for (int64_t i = from; i < to; i++) {
        op[i - from] = nodes[i].op;
        a[i - from] = nodes[i].a;
        b[i - from] = nodes[i].b;
        v[i - from] = nodes[i].v;
    }
}
}
