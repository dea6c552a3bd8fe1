int main()
{
    using namespace TinyDIP;
    Image<RGB_DOUBLE> a(std::size_t{2}, std::size_t{1}), b(std::size_t{2}, std::size_t{1});
    for (std::size_t x = 0; x < 2; ++x) { a.at(x, std::size_t{0}).channels[0] = 5; a.at(x, std::size_t{0}).channels[1] = 2; a.at(x, std::size_t{0}).channels[2] = 7; b.at(x, std::size_t{0}).channels[0] = 1; b.at(x, std::size_t{0}).channels[1] = 6; b.at(x, std::size_t{0}).channels[2] = 7; }
    auto r = subtract(a, b);
    auto p = r.at(std::size_t{1}, std::size_t{0});
    return p.channels[0] == 4 && p.channels[1] == -4 && p.channels[2] == 0 ? 0 : 1;
}
