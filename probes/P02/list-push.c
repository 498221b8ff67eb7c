#include <stdio.h>
#include <stdlib.h>

struct Node {
    int v;
    struct Node *next;
};

struct Node *push(struct Node *h, int v) {
    struct Node *n = malloc(sizeof(struct Node));
    n->v = v;
    n->next = h;
    return n;
}

int main(void) {
    struct Node *h = NULL;
    h = push(h, 1);
    h = push(h, 2);
    while (h != NULL) {
        printf("%d\n", h->v);
        struct Node *t = h->next;
        free(h);
        h = t;
    }
    return 0;
}
