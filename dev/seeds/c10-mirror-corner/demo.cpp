int main()
{
    const std::size_t W = 5, H = 4, a = 3, b = 1;
    TinyDIP::Image<double> image(W, H);
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) image.at(x, y) = x + 10.0 * y;
    auto r = TinyDIP::generate_mirror_padding_image(image, a, b);
    auto m = [](long i, long n) { if (i < 0) i = -i; if (i >= n) i = 2 * n - 2 - i; return std::size_t(i); };
    for (std::size_t y = 0; y < H + 2 * b; ++y) for (std::size_t x = 0; x < W + 2 * a; ++x)
        if (r.at(x, y) != image.at(m(long(x) - long(a), W), m(long(y) - long(b), H))) return 1;
    return 0;
}
