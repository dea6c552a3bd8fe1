#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cat > "$W/p.cpp" <<'X'
extern "C" int answer() { return 42; }
X
cat > "$W/demo.cpp" <<'X'
int main()
{
    DynamicLibrary a("./liba.so");
    DynamicLibrary b("./libb.so");
    a = std::move(b);
    if (void* h = dlopen("./liba.so", RTLD_NOW | RTLD_NOLOAD)) { (void)h; return 1; }
    if (!dlopen("./libb.so", RTLD_NOW | RTLD_NOLOAD)) return 2;
    return a.get_function<int (*)()>("answer")() == 42 ? 0 : 3;
}
X
g++-14 -shared -fPIC "$W/p.cpp" -o "$W/liba.so" && g++-14 -shared -fPIC "$W/p.cpp" -o "$W/libb.so" || exit 3
g++-14 -std=gnu++23 -O0 -w -include utility -include "$R/dynamic_loader.h" "$W/demo.cpp" -o "$W/demo" -ldl || exit 3
cd "$W" && timeout 60 ./demo
