#include <stdio.h>
#include <stdlib.h>

int *make(int z) {
    int *h = malloc(3 * sizeof(int));
    for (int i = 0; i < 3; i++) {
        h[i] = z + i;
    }
    return h;
}

int main(void) {
    int *p = make(4);
    printf("%d\n", p[1]);
    free(p);
    return 0;
}
