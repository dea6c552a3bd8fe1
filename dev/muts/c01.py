H='image.h'
M=[
('k1','C01',1,H,'''                image_data = std::vector(std::ranges::begin(input), std::ranges::end(input));
                if (std::ranges::size(image_data) != (1 * ... * sizes)) ''','''                image_data = std::vector(std::ranges::begin(input), std::ranges::end(input));
                if (std::ranges::size(image_data) < (1 * ... * sizes)) '''),
('k2','C01',1,H,'''            image_data.resize(
                std::reduce(
                    std::ranges::cbegin(sizes),
                    std::ranges::cend(sizes),''','''            image_data.resize(
                std::reduce(
                    std::ranges::cbegin(sizes),
                    std::ranges::cend(sizes) - 1,'''),
('k3','C01',1,H,'''                if (std::ranges::size(rows) != size[0])
                {
                    throw std::runtime_error("Image data input and the given size are mismatched!");
                }
''',''''''),
('k4','C01',0,H,'''            size.reserve(2);
            size.emplace_back(std::ranges::size(input[0]));
            size.emplace_back(std::ranges::size(input));
            for (auto& rows : input)
            {
                if (std::ranges::size(rows) != size[0])
                {
                    throw std::runtime_error("Image data input and the given size are mismatched!");
                }
''','''            const auto w = input.front().size();
            size = { w, input.size() };
            image_data.reserve(w * input.size());
            for (const auto& rows : input)
            {
                if (rows.size() != w)
                {
                    throw std::runtime_error("Image data input and the given size are mismatched!");
                }
'''),
('k5','C01',1,H,'''            std::fill(std::ranges::begin(image_data), std::ranges::end(image_data), input);
            return *this;''','''            image_data.assign(getWidth() * getHeight(), input);
            return *this;'''),
('k6','C01',1,H,'''            check_size_same(rhs, *this);
            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),
                   std::ranges::begin(image_data), std::minus<>{});''','''            check_size_same(rhs, *this);
            image_data.resize(size[0]);
            std::transform(std::ranges::cbegin(image_data), std::ranges::cend(image_data), std::ranges::cbegin(rhs.image_data),
                   std::ranges::begin(image_data), std::minus<>{});'''),
('k7','C01',0,H,'''            size.reserve(sizeof...(sizes));
            (size.emplace_back(sizes), ...);
            image_data.resize(
                std::reduce(
                    std::ranges::cbegin(size),
                    std::ranges::cend(size),
                    std::size_t{1},
                    std::multiplies<>()
                )
            );''','''            size = { static_cast<std::size_t>(sizes)... };
            std::size_t total = 1;
            for (const auto extent : size) { total *= extent; }
            image_data = std::vector<ElementT>(total);'''),
('k8','C01',1,H,'''(auto&& element) { return element; });
            image_data.resize(''','''(auto&& element) { return element; });
            image_data.reserve('''),
]
