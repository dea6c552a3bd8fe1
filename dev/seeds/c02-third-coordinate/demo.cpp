#include <iostream>
int main()
{
    const std::vector<std::size_t> sizes{3, 5, 2};
    TinyDIP::Image<int> image(sizes);
    try
    {
        image.at(std::size_t{0}, std::size_t{0}, std::size_t{4}) = 1;
    }
    catch (const std::out_of_range&) { return 0; }
    return 1;
}
