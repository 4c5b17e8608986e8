// Stand-ins for the libstdc++ red-black tree helpers: the same interface contract (ordering, header
// links, iteration order), without rebalancing.
struct N { int color; N *parent, *left, *right; };
extern "C" {
N *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(N *x) {
    if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
    N *y = x->parent;
    while (x == y->right) { x = y; y = y->parent; }
    if (x->right != y) x = y;
    return x;
}
N *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(N *x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
N *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(N *x) {
    if (x->color == 0 && x->parent->parent == x) return x->right;   // header (red)
    if (x->left) { N *y = x->left; while (y->right) y = y->right; return y; }
    N *y = x->parent;
    while (x == y->left) { x = y; y = y->parent; }
    return y;
}
N *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(N *x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, N *x, N *p, N *h) {
    x->parent = p; x->left = nullptr; x->right = nullptr; x->color = 1;   // black: only the header is red
    if (left) {
        p->left = x;
        if (p == h) { h->parent = x; h->right = x; }
        else if (p == h->left) h->left = x;
    } else {
        p->right = x;
        if (p == h->right) h->right = x;
    }
}
static void replace(N *z, N *c, N *h) {
    if (h->parent == z) h->parent = c;
    else if (z->parent->left == z) z->parent->left = c;
    else z->parent->right = c;
    if (c) c->parent = z->parent;
}
N *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(N *z, N *h) {
    N *nl = h->left, *nr = h->right;
    if (nl == z) nl = _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(z);
    if (nr == z) { if (h->left == z) nr = h; else nr = _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(z); }
    if (!z->left) replace(z, z->right, h);
    else if (!z->right) replace(z, z->left, h);
    else {
        N *y = z->right;
        while (y->left) y = y->left;
        if (y->parent != z) {
            replace(y, y->right, h);
            y->right = z->right; y->right->parent = y;
        }
        replace(z, y, h);
        y->left = z->left; y->left->parent = y;
    }
    if (h->parent == nullptr) { h->left = h; h->right = h; }
    else { h->left = nl; h->right = nr; }
    return z;
}
}
