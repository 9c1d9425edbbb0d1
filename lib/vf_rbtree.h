/*
 * Assumed contract of nginx's rbtree: insert and delete keep the in-order
 * sequence and parent links; the shape is any binary search tree (no
 * rebalancing here, so every shape occurs).  The insert position is chosen by
 * the tree's own callback, which is code under verification.
 */
#ifndef VF_RBTREE_H
#define VF_RBTREE_H

static void
vf_rbt_replace(ngx_rbtree_t *t, ngx_rbtree_node_t *old, ngx_rbtree_node_t *n)
{
    if (old == t->root) {
        t->root = n;
        if (n != t->sentinel) { n->parent = NULL; }
        return;
    }
    if (old->parent->left == old) { old->parent->left = n; } else { old->parent->right = n; }
    if (n != t->sentinel) { n->parent = old->parent; }
}

void
ngx_rbtree_insert(ngx_rbtree_t *t, ngx_rbtree_node_t *n)
{
    if (t->root == t->sentinel) {
        n->parent = NULL;
        n->left = t->sentinel;
        n->right = t->sentinel;
        ngx_rbt_black(n);
        t->root = n;
        return;
    }
    t->insert(t->root, n, t->sentinel);
}

void
ngx_rbtree_delete(ngx_rbtree_t *t, ngx_rbtree_node_t *n)
{
    ngx_rbtree_node_t  *s;

    if (n->left == t->sentinel) {
        vf_rbt_replace(t, n, n->right);
    } else if (n->right == t->sentinel) {
        vf_rbt_replace(t, n, n->left);
    } else {
        for (s = n->right; s->left != t->sentinel; s = s->left) { /* void */ }
        if (s != n->right) {
            s->parent->left = s->right;
            if (s->right != t->sentinel) { s->right->parent = s->parent; }
            s->right = n->right;
            n->right->parent = s;
        }
        s->left = n->left;
        n->left->parent = s;
        vf_rbt_replace(t, n, s);
    }
    n->left = NULL;
    n->right = NULL;
    n->parent = NULL;
    n->key = 0;
}

void
ngx_rbtree_insert_value(ngx_rbtree_node_t *temp, ngx_rbtree_node_t *node,
    ngx_rbtree_node_t *sentinel)
{
    ngx_rbtree_node_t  **p;

    for ( ;; ) {
        p = (node->key < temp->key) ? &temp->left : &temp->right;
        if (*p == sentinel) { break; }
        temp = *p;
    }
    *p = node;
    node->parent = temp;
    node->left = sentinel;
    node->right = sentinel;
    ngx_rbt_red(node);
}

void
ngx_rbtree_insert_timer_value(ngx_rbtree_node_t *temp, ngx_rbtree_node_t *node,
    ngx_rbtree_node_t *sentinel)
{
    ngx_rbtree_node_t  **p;

    for ( ;; ) {
        p = ((ngx_rbtree_key_int_t) (node->key - temp->key) < 0)
            ? &temp->left : &temp->right;
        if (*p == sentinel) { break; }
        temp = *p;
    }
    *p = node;
    node->parent = temp;
    node->left = sentinel;
    node->right = sentinel;
    ngx_rbt_red(node);
}

ngx_rbtree_node_t *
ngx_rbtree_next(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
    ngx_rbtree_node_t  *root, *sentinel, *parent;

    sentinel = tree->sentinel;
    if (node->right != sentinel) {
        return ngx_rbtree_min(node->right, sentinel);
    }
    root = tree->root;
    for ( ;; ) {
        parent = node->parent;
        if (node == root) { return NULL; }
        if (node == parent->left) { return parent; }
        node = parent;
    }
}
#endif
