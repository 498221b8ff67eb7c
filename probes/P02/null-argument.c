#include <stdio.h>

int f(int *p) {
    if (p == NULL) return -1;
    return *p;
}

int main(void) {
    int x = 3;
    printf("%d %d\n", f(NULL), f(&x));
    return 0;
}
