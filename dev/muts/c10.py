G="image_operations.h"
M=[
('a','C10',1,G,'output.at_without_boundary_check(input.getWidth() - x - 1, y) = input.at_without_boundary_check(x, y);','output.at_without_boundary_check(input.getWidth() - x - 1, y) = input.at_without_boundary_check(x, y > 2 ? y - 1 : y);'),
('b','C10',0,G,'output.at_without_boundary_check(input.getWidth() - x - 1, y) = input.at_without_boundary_check(x, y);','const auto last = width - 1;\n                output.at_without_boundary_check(x, y) = input.at_without_boundary_check(last - x, y);'),
('c','C10',1,G,'output.at(x, input1.getHeight() + y) = input2.at(x, y);','output.at(x, output.getHeight() - 1 - y) = input2.at(x, y);'),
('d','C10',0,G,'output.at(x, input1.getHeight() + y) = input2.at(x, y);','output.at(x, output.getHeight() - input2.getHeight() + y) = input2.at(x, y);'),
('e','C10',1,G,'subimage2(flipped_vertical, 0, flipped_vertical.getWidth() - 1, 0, height_expansion),\n            width_expansion,\n            input.getHeight() + height_expansion - 1,','subimage2(flipped_vertical, 0, flipped_vertical.getWidth() - 1, 0, height_expansion),\n            width_expansion,\n            input.getHeight() + height_expansion,'),
('f','C10',1,G,'start[i] = centers[i] - static_cast<std::size_t>(std::floor(static_cast<double>(new_sizes[i]) / 2.0));','start[i] = centers[i] - static_cast<std::size_t>(std::floor(static_cast<double>(new_sizes[i] - 1) / 2.0));'),
('g','C10',0,G,'start[i] = centers[i] - static_cast<std::size_t>(std::floor(static_cast<double>(new_sizes[i]) / 2.0));','start[i] = centers[i] - static_cast<std::size_t>(new_sizes[i]) / 2;'),
('h','C10',1,G,'x * block_size_x,\n                    (x + 1) * block_size_x - 1,','x * block_size_x,\n                    (x + 1 == xsegments) ? input.getWidth() - 1 : (x + 1) * block_size_x - 1,'),
('i','C10',1,G,'output.at_without_boundary_check(x_location + x, y_location + y) = target.at_without_boundary_check(x, y);','output.at_without_boundary_check(y_location + x, y_location + y) = target.at_without_boundary_check(x, y);',1),
('j','C10',0,G,'(background.getWidth() >= target.getWidth() + x_location)?\n                    background.getWidth():\n                    (target.getWidth() + x_location);','std::max(background.getWidth(), target.getWidth() + x_location);'),
('k','C10',1,G,'(endx >= input.getWidth())','(endx > input.getWidth())'),
('l','C10',1,G,'output.at(y, x) = \n                    input.at(x, y);','output.at(y, x) = \n                    input.at(x, y > x ? x : y);'),
('m','C10',0,G,'''        for (std::size_t y = 0; y < input.getHeight(); ++y)
        {
            for (std::size_t x = 0; x < input.getWidth(); ++x)
            {
                output.at(y, x) = 
                    input.at(x, y);
            }
        }''','''        for (std::size_t i = 0; i < input.count(); ++i)
        {
            const std::size_t x = i % input.getWidth();
            const std::size_t y = i / input.getWidth();
            output.at(y, x) = input.at(x, y);
        }'''),
('n','C10',1,G,'''            case mirror:
            padded_image''','''XX''') if False else
('n','C10',1,G,'radians = std::fmod(radians, 2 * std::numbers::pi_v<long double>);\n        while','radians = std::fmod(radians, std::numbers::pi_v<long double>);\n        while'),
('o','C10',1,G,'temp.setAllValue(input.at(static_cast<std::size_t>(0), input.getHeight() - static_cast<std::size_t>(1)));','temp.setAllValue(input.at(input.getHeight() - static_cast<std::size_t>(1), static_cast<std::size_t>(0)));'),
('p','C10',0,G,'''        auto output = input[0];
        for (std::size_t i = 1; i < input.size(); i++)
        {
            output = concat_vertical(output, input[i]);
        }
        return output;''','''        auto output = input.front();
        for (auto it = input.begin() + 1; it != input.end(); ++it)
        {
            output = concat_vertical(output, *it);
        }
        return output;'''),
('q','C10',1,G,'output = concat_horizontal(output, input[i]);','output = concat_horizontal(input[i], output);'),
('r','C10',0,G,'''        output.setAllValue(default_value);
        output = paste2D(std::forward<ExecutionPolicy>(execution_policy), output, input, width_expansion, height_expansion, default_value);
        return output;''','''        output.setAllValue(default_value);
        for (std::size_t y = 0; y < input.getHeight(); ++y)
        {
            for (std::size_t x = 0; x < input.getWidth(); ++x)
            {
                output.at_without_boundary_check(x + width_expansion, y + height_expansion) = input.at_without_boundary_check(x, y);
            }
        }
        return output;'''),
('s','C10',1,G,'Image<ElementT> output(input.getHeight(), input.getWidth());\n        for (std::size_t y = 0; y < input.getHeight(); ++y)','Image<ElementT> output(input.getHeight(), input.getHeight());\n        for (std::size_t y = 0; y < input.getHeight(); ++y)'),
]
