int main()
{
    using namespace TinyDIP;
    Image<HSV> a(std::size_t{2}, std::size_t{2}), b(std::size_t{2}, std::size_t{2});
    for (std::size_t y = 0; y < 2; ++y) for (std::size_t x = 0; x < 2; ++x)
    { a.at(x, y).channels[0] = 1; a.at(x, y).channels[1] = 2; a.at(x, y).channels[2] = 3; b.at(x, y).channels[0] = 10; b.at(x, y).channels[1] = 20; b.at(x, y).channels[2] = 40; }
    auto r = apply_each(a, b, [](auto&& p, auto&& q) { return p + q; });
    return r.at(std::size_t{1}, std::size_t{1}).channels[1] == 22 && r.at(std::size_t{0}, std::size_t{1}).channels[2] == 43 ? 0 : 1;
}
