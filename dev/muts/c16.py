G="image_operations.h"; I="image.h"; B="basic_functions.h"
M=[
('s1','C16',1,G,"        auto sigma1 = std::sqrt(sigma1_2);\n        auto sigma2 = std::sqrt(sigma2_2);\n        auto normalize_factor =","        static auto sigma1 = std::sqrt(sigma1_2);\n        auto sigma2 = std::sqrt(sigma2_2);\n        auto normalize_factor =",0),
('s2','C16',1,G,"        return count(input, target) == 1;","        static int calls = 0;\n        if (++calls > 1000) { return false; }\n        return count(input, target) == 1;"),
('s3','C16',1,G,"        return count(input, target) == 1;","        thread_local std::vector<ElementT> seen;\n        seen.push_back(target);\n        return count(input, target) == 1 && std::ranges::find(seen, target) != seen.end() && seen.size() < 100;"),
('s4','C16',1,G,"    //  unique_value template function implementation\n","    inline std::size_t last_count = 0;\n    inline bool changed(std::size_t c) { const bool r = c != last_count; last_count = c; return r; }\n    //  unique_value template function implementation\n"),
('c1','C16',1,G,"        Image<ElementT> result = input;\n    \n        // C++20 Meta","        auto& result = const_cast<Image<ElementT>&>(input);\n    \n        // C++20 Meta"),
('c2','C16',1,G,"        return count(input, target) == 1;","        auto p = const_cast<ElementT*>(input.getImageData().data());\n        p[0] = target;\n        return count(input, target) == 1;"),
('c3','C16',1,G,"        return count(input, target) == 1;","        ((Image<ElementT>&)input).setAllValue(target);\n        return count(input, target) == 1;"),
('f1','C16',1,B,"            return std::ranges::minmax(numbers, comp, proj);","            auto copy = std::move(numbers);\n            return std::ranges::minmax(copy, comp, proj);"),
('f2','C16',1,B,"            return std::ranges::minmax(numbers, comp, proj);","            std::ranges::sort(numbers);\n            return std::ranges::minmax(numbers, comp, proj);"),
('m1','C16',1,I,"        std::vector<ElementT> image_data;","        mutable std::vector<ElementT> image_data;\n        public: std::vector<ElementT>& raw() const { return image_data; } private:"),
('m2','C16',1,I,"        std::vector<ElementT> image_data;","        std::shared_ptr<std::vector<ElementT>> image_data;"),
('r1','C16',1,G,"        return count(input, target) == 1;","        std::mt19937 gen{std::random_device{}()};\n        return count(input, target) == 1 || gen() == 0;"),
# equivalents
('e1','C16',0,G,"        return count(input, target) == 1;","        static const std::vector<double> table{1.0, 2.0};\n        static std::size_t calls = 0;\n        ++calls;\n        return count(input, target) == static_cast<std::size_t>(table[0]);"),
('e2','C16',0,G,"        return count(input, target) == 1;","        thread_local std::vector<ElementT> buf;\n        buf.clear();\n        buf.push_back(target);\n        return count(input, buf[0]) == 1;"),
('e3','C16',0,G,"        return count(input, target) == 1;","        auto copy = input;\n        for (auto& v : copy.getImageData()) { if (v == target) { v = target; } }\n        return count(copy, target) == 1;"),
('e4','C16',0,G,"        return count(input, target) == 1;","        const auto& view = const_cast<const Image<ElementT>&>(input);\n        static std::mutex m;\n        std::lock_guard<std::mutex> lock(m);\n        return count(view, target) == 1;"),
('memo', 'C16', 0, [('image_operations.h', '        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)', '        static thread_local Image<InputT> last_mask;\n        static thread_local std::size_t last_center{};\n        static thread_local InputT last_standard_deviation{};\n        static thread_local bool last_normalize{};\n        if (size > 0 && last_mask.getDimensionality() == 2 && last_mask.getWidth() == size && last_center == center && last_standard_deviation == standard_deviation && last_normalize == normalize)\n        {\n            return last_mask;\n        }\n        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)'), ('image_operations.h', '            row_vector = divides(row_vector, sum_value);\n        }\n        return row_vector;', '            row_vector = divides(row_vector, sum_value);\n        }\n        last_mask = row_vector;\n        last_center = center;\n        last_standard_deviation = standard_deviation;\n        last_normalize = normalize;\n        return row_vector;')]),
('memob', 'C16', 1, [('image_operations.h', '        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)', '        static thread_local Image<InputT> last_mask;\n        static thread_local std::size_t last_center{};\n        static thread_local InputT last_standard_deviation{};\n        static thread_local bool last_normalize{};\n        if (size > 0 && last_mask.getDimensionality() == 2 && last_mask.getWidth() == size && last_center == center && last_standard_deviation == standard_deviation)\n        {\n            return last_mask;\n        }\n        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)'), ('image_operations.h', '            row_vector = divides(row_vector, sum_value);\n        }\n        return row_vector;', '            row_vector = divides(row_vector, sum_value);\n        }\n        last_mask = row_vector;\n        last_center = center;\n        last_standard_deviation = standard_deviation;\n        last_normalize = normalize;\n        return row_vector;')]),
('memob2', 'C16', 1, [('image_operations.h', '        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)', '        static thread_local Image<InputT> last_mask;\n        static thread_local std::size_t last_center{};\n        static thread_local InputT last_standard_deviation{};\n        static thread_local bool last_normalize{};\n        if (size > 0 && last_mask.getDimensionality() == 2 && last_mask.getWidth() == size && last_center == center && (last_standard_deviation == standard_deviation || last_normalize == normalize))\n        {\n            return last_mask;\n        }\n        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)'), ('image_operations.h', '            row_vector = divides(row_vector, sum_value);\n        }\n        return row_vector;', '            row_vector = divides(row_vector, sum_value);\n        }\n        last_mask = row_vector;\n        last_center = center;\n        last_standard_deviation = standard_deviation;\n        last_normalize = normalize;\n        return row_vector;')]),
('memomap', 'C16', 0, [('image_operations.h', '        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)', '        static thread_local std::map<std::tuple<std::size_t, std::size_t, InputT, bool>, Image<InputT>> cache;\n        const auto key = std::make_tuple(size, center, standard_deviation, normalize);\n        if (auto it = cache.find(key); it != cache.end())\n        {\n            return it->second;\n        }\n        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)'), ('image_operations.h', '            row_vector = divides(row_vector, sum_value);\n        }\n        return row_vector;', '            row_vector = divides(row_vector, sum_value);\n        }\n        cache.emplace(key, row_vector);\n        return row_vector;')]),
('memomapb', 'C16', 1, [('image_operations.h', '        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)', '        static thread_local std::map<std::tuple<std::size_t, std::size_t, InputT>, Image<InputT>> cache;\n        const auto key = std::make_tuple(size, center, standard_deviation);\n        if (auto it = cache.find(key); it != cache.end())\n        {\n            return it->second;\n        }\n        Image<InputT> row_vector(size, std::size_t{1});\n        InputT sum_value{};\n        for (std::size_t x = 0; x < size; ++x)'), ('image_operations.h', '            row_vector = divides(row_vector, sum_value);\n        }\n        return row_vector;', '            row_vector = divides(row_vector, sum_value);\n        }\n        cache.emplace(key, row_vector);\n        return row_vector;')]),
]
