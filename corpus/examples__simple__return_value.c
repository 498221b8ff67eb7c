// Test return with explicit value
int get_value() {
    return 42;
}

int add_numbers(int a, int b) {
    return a + b;
}
