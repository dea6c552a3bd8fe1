G="image_operations.h"
B="basic_functions.h"
M=[
('a','C21',1,G,'std::clamp(\n                            x.channels[channel_index] - \n                            y.channels[channel_index],\n                            0,\n                            255);','x.channels[channel_index] - y.channels[channel_index];'),
('b','C21',0,G,'std::clamp(\n                            x.channels[channel_index] - \n                            y.channels[channel_index],\n                            0,\n                            255);','(x.channels[channel_index] > y.channels[channel_index]) ? x.channels[channel_index] - y.channels[channel_index] : 0;'),
('c','C21',1,G,'return pixelwise_transform(std::divides<>{}, input1, input2);','return pixelwise_transform(std::divides<>{}, input2, input1);'),
('d','C21',1,G,'return pixelwise_transform(std::minus<>{}, input1, input2);','return pixelwise_transform(std::plus<>{}, input1, input2);'),
('e','C21',0,G,'return pixelwise_transform(std::minus<>{}, input1, input2);','return pixelwise_transform([](auto&& a, auto&& b) { return a - b; }, input1, input2);'),
('f','C21',1,G,'''                if (element1 > element2)
                    return element1 - element2;
                return element2 - element1;''','''                if (element1 > element2)
                    return element1 - element2;
                return element1 - element2;'''),
('g','C21',1,G,'''return apply_each(input, [&](auto&& planes) { return sin(planes); });''','''return apply_each(input, [&](auto&& planes) { return cos(planes); });'''),
('h','C21',1,G,'''return multiplies(each_plane, times);''','''return multiplies(multiplies(each_plane, times), times);'''),
('i','C21',0,G,'''return multiplies(each_plane, times);''','''return multiplies(times, each_plane);''') if False else
('i','C21',0,G,'''                InputT output;
                for(std::size_t channel_index = 0; channel_index < 3; ++channel_index)
                {
                    output.channels[channel_index] =
                        (element1.channels[channel_index] > element2.channels[channel_index]) ?
                        (element1.channels[channel_index] - element2.channels[channel_index]) :
                        (element2.channels[channel_index] - element1.channels[channel_index]);
                }
                return output;''','''                InputT output;
                for(std::size_t channel_index = 0; channel_index < 3; ++channel_index)
                {
                    const auto a = element1.channels[channel_index];
                    const auto b = element2.channels[channel_index];
                    output.channels[channel_index] = std::max(a, b) - std::min(a, b);
                }
                return output;'''),
('j','C21',1,G,'''                    InputT output;
                    for(std::size_t channel_index = 0; channel_index < 3; ++channel_index)
                    {
                        output.channels[channel_index] = x.channels[channel_index] - y.channels[channel_index];''','''                    InputT output = x;
                    for(std::size_t channel_index = 0; channel_index < 2; ++channel_index)
                    {
                        output.channels[channel_index] = x.channels[channel_index] - y.channels[channel_index];'''),
('k','C21',1,B,'return std::trunc(input);','return std::floor(input);',0),
('l','C21',1,B,'return std::trunc(input);','return std::round(input);',1),
('m','C21',1,G,'[&](auto&& _input) { return 1 / std::tan(_input); }, input.getImageData()','[&](auto&& _input) { return std::tan(1 / _input); }, input.getImageData()'),
('n','C21',0,G,'[&](auto&& _input) { return 1 / std::tan(_input); }, input.getImageData()','[&](auto&& _input) { return std::cos(_input) / std::sin(_input); }, input.getImageData()'),
('o','C21',1,'image.h','std::ranges::begin(image_data), std::minus<>{});','std::ranges::begin(image_data), [](auto&& a, auto&& b) { return b - a; });'),
('p','C21',0,'image.h','std::ranges::begin(image_data), std::minus<>{});','std::ranges::begin(image_data), [](auto&& a, auto&& b) { return a - b; });'),
('q','C21',0,'image.h','''            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),
                   std::ranges::begin(image_data), std::minus<>{});''','''            for (std::size_t i = 0; i < image_data.size(); ++i)
            {
                image_data[i] = image_data[i] - rhs.image_data[i];
            }'''),
('r','C21',1,'image.h','''            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),
                   std::ranges::begin(image_data), std::minus<>{});''','''            for (std::size_t i = 0; i + 1 < image_data.size(); ++i)
            {
                image_data[i] = image_data[i] - rhs.image_data[i];
            }'''),
('s0','C21',0,'image.h','            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),\n                   std::ranges::begin(image_data), std::minus<>{});','            std::size_t i = 0;\n            for (auto& element : image_data)\n            {\n                element -= rhs.image_data[i++];\n            }'),
('s1','C21',0,'image.h','            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),\n                   std::ranges::begin(image_data), std::minus<>{});','            auto& data = image_data;\n            for (std::size_t i = 0; i < count(); ++i)\n            {\n                data[i] -= rhs.image_data[i];\n            }'),
('s2','C21',0,'image.h','            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),\n                   std::ranges::begin(image_data), std::minus<>{});','            auto other = rhs.image_data.begin();\n            for (auto it = image_data.begin(); it != image_data.end(); ++it, ++other)\n            {\n                *it -= *other;\n            }'),
('s3','C21',0,'image.h','            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),\n                   std::ranges::begin(image_data), std::minus<>{});','            std::ranges::transform(image_data, rhs.image_data, image_data.begin(), [](const ElementT& a, const ElementT& b) { return a - b; });'),
('s4','C21',0,'image.h','            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),\n                   std::ranges::begin(image_data), std::minus<>{});','            for (std::size_t i = 0; i < count(); ++i)\n            {\n                this->image_data.at(i) = this->image_data.at(i) - rhs.image_data.at(i);\n            }'),
('s5','C21',0,'image.h','            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),\n                   std::ranges::begin(image_data), std::minus<>{});','            std::vector<ElementT> result;\n            result.reserve(image_data.size());\n            for (std::size_t i = 0; i < image_data.size(); ++i)\n            {\n                result.push_back(image_data[i] - rhs.image_data[i]);\n            }\n            image_data = std::move(result);'),
('s6','C21',0,'image.h','            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),\n                   std::ranges::begin(image_data), std::minus<>{});','            std::for_each(image_data.begin(), image_data.end(), [&, i = std::size_t{0}](auto& e) mutable { e = e - rhs.image_data[i++]; });'),
]
