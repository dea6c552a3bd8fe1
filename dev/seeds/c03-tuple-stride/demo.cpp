#include <iostream>
int main()
{
    const std::vector<std::size_t> sizes{2, 3, 4};
    TinyDIP::Image<int> image(sizes);
    image.setAllValue(0);
    image.set(std::make_tuple(std::size_t{1}, std::size_t{0}, std::size_t{1}), 7);
    return image.at(std::size_t{1}, std::size_t{0}, std::size_t{1}) == 7 ? 0 : 1;
}
