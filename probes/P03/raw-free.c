#include <stdio.h>
#include <stdlib.h>

struct Node {
    int v;
    struct Node *next;
};

int body(void) {
    struct Node *h = NULL;
    for (int i = 0; i < 3; i++) {
        struct Node *n = malloc(sizeof(struct Node));
        n->v = i;
        n->next = h;
        h = n;
    }
    int s = 0;
    while (h != NULL) {
        struct Node *t = h->next;
        s += h->v;
        free(h);
        h = t;
    }
    return s;
}

int main(void) {
    int rc = body();
    printf("%d\n", rc);
    return 0;
}
