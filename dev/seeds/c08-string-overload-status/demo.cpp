#include <cstdio>
namespace TinyDIP { int bmp_write(std::string, Image<RGB>); }
int main()
{
    TinyDIP::Image<TinyDIP::RGB> image(std::size_t{4}, std::size_t{4});
    if (TinyDIP::bmp_write(std::string("ok"), image) != 0) return 2;
    return TinyDIP::bmp_write(std::string("no_such_directory/out"), image) != 0 ? 0 : 1;
}
