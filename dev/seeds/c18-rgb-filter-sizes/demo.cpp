int main()
{
    using namespace TinyDIP;
    const std::size_t N = 21;
    Image<RGB_DOUBLE> c(N, N); Image<double> g(N, N);
    for (std::size_t y = 0; y < N; ++y) for (std::size_t x = 0; x < N; ++x)
    { double v = (x * 7 + y * 13) % 29; c.at(x, y).channels[0] = v; c.at(x, y).channels[1] = v; c.at(x, y).channels[2] = v; g.at(x, y) = v; }
    auto r = imgaussfilt(std::execution::seq, c, 1.0, 3.0, 0.0, std::size_t{3}, std::size_t{9}, BoundaryCondition::mirror);
    auto e = imgaussfilt(std::execution::seq, g, 1.0, 3.0, 0.0, std::size_t{3}, std::size_t{9}, BoundaryCondition::mirror);
    for (std::size_t y = 0; y < N; ++y) for (std::size_t x = 0; x < N; ++x)
        if (std::abs(r.at(x, y).channels[0] - e.at(x, y)) > 1e-9) return 1;
    return 0;
}
