#include <stdio.h>

int count(const char *s) {
    int n = 0;
    for (int i = 0; s[i] != 0; i++) {
        if (s[i] == 'b') n++;
    }
    return n;
}

int main(void) {
    printf("%d\n", count("abcab"));
    return 0;
}
