#include <stdio.h>

struct Op {
    int (*f)(int, int);
    int a;
};

int add(int x, int y) { return x + y; }

int main(void) {
    struct Op o;
    o.f = add;
    o.a = 3;
    printf("%d\n", o.f(o.a, 4));
    return 0;
}
