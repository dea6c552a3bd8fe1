#include <iostream>
int main()
{
    std::vector<double> data(7, 1.0);
    std::vector<std::size_t> sizes{2, 3};
    try
    {
        TinyDIP::Image<double> image(data, sizes);
    }
    catch (const std::exception&) { return 0; }
    return 1;
}
