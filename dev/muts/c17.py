G="image_operations.h"
M=[
('a','C17',1,G,'''        if ((startx >= input.getWidth()) || (endx >= input.getWidth()))''','''        if ((startx >= input.getWidth()) || (endx > input.getWidth()))'''),
('b','C17',1,G,'''background.getHeight() >= target.getHeight() + y_location))
        {
            auto output = background;''','''background.getHeight() >= target.getHeight()))
        {
            auto output = background;'''),
('c','C17',1,G,'if (in_x < input.getWidth() && in_y < input.getHeight())','if (in_x < input.getWidth() && in_y <= input.getHeight())'),
('d','C17',1,G,'if (x >= width || y >= height)\n                {\n                    continue;','if (x > width || y >= height)\n                {\n                    continue;'),
('e','C17',1,G,'const std::ptrdiff_t x1_end = std::min(x_w - 1, out_x);','const std::ptrdiff_t x1_end = std::min(x_w, out_x);'),
('f','C17',1,G,'const std::ptrdiff_t y1_start = std::max(std::ptrdiff_t{ 0 }, out_y - y_h + 1);','const std::ptrdiff_t y1_start = std::max(std::ptrdiff_t{ 0 }, out_y - y_h);'),
('g','C17',1,G,'output.at_without_boundary_check(input.getWidth() - x - 1, y) = input.at_without_boundary_check(x, y);','output.at_without_boundary_check(input.getWidth() - x, y) = input.at_without_boundary_check(x, y);'),
('h','C17',1,G,'const std::size_t source_x = static_cast<std::size_t>(x * x_ratio);','const std::size_t source_x = static_cast<std::size_t>((x + 1) * x_ratio);'),
('i','C17',1,G,'for (std::size_t index = 0; index < r.count(); ++index)','for (std::size_t index = 0; index <= r.count(); ++index)',1),
('j','C17',1,G,'output_data.resize(input.count());\n        #pragma omp parallel for\n        for (std::size_t i = 0; i < input.count(); ++i)\n        {\n            output_data[i] = input_data[i].channels[index];','output_data.resize(input.getWidth());\n        #pragma omp parallel for\n        for (std::size_t i = 0; i < input.count(); ++i)\n        {\n            output_data[i] = input_data[i].channels[index];',1),
('k','C17',1,G,'output.at_without_boundary_check(x, input.getHeight() - y - 1) = input.at_without_boundary_check(x, y);','output.at_without_boundary_check(x, input.getWidth() - y - 1) = input.at_without_boundary_check(x, y);'),
('l','C17',0,G,'output.at_without_boundary_check(input.getWidth() - x - 1, y) = input.at_without_boundary_check(x, y);','const auto mirrored = input.getWidth() - 1 - x;\n                output.at_without_boundary_check(mirrored, y) = input.at_without_boundary_check(x, y);'),
('m','C17',0,G,'const std::ptrdiff_t x1_end = std::min(x_w - 1, out_x);','const std::ptrdiff_t x1_end = out_x < x_w ? out_x : x_w - 1;'),
('n','C17',1,G,'                    output.at_without_boundary_check(x, y) = background.at_without_boundary_check(x, y);','                    output.at_without_boundary_check(x + x_location, y) = background.at_without_boundary_check(x, y);'),
('o','C17',1,'image_io.h','''for (std::size_t y = 0; y < height; ++y)''','''for (std::size_t y = 0; y <= height; ++y)''',2),
]
