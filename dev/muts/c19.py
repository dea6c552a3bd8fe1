G="image_operations.h"; I="image.h"; B="basic_functions.h"; L="linear_algebra.h"; H="main.h"
U1="        return count(input, target) == 1;"
M=[
('a1','C19',1,I,"        std::vector<ElementT> const& getImageData() const noexcept { return image_data; }","        std::vector<ElementT> const& getImageData() const noexcept { const auto copy = image_data; return copy; }"),
('a2','C19',1,L,"            return data_[row * cols_ + col];","            auto value = data_;\n            return value[row * cols_ + col];",1),
('a3','C19',1,B,"    constexpr static auto& first_of(const Args&... inputs) {","    constexpr static auto& first_of(const Args... inputs) {"),
('a4','C19',1,B,"get_from_variadic_template(const Arg& first, const Args&... inputs)","get_from_variadic_template(const Arg first, const Args&... inputs)"),
('t1','C19',1,G,U1,"        const auto& data = subimage(input, 1, 1, 0, 0).getImageData();\n        return count(input, target) == 1 && data.size() == 1;"),
('t2','C19',1,G,U1,"        std::size_t n = 0;\n        for (const auto& v : subimage(input, 1, 1, 0, 0).getImageData()) { n += (v == target); }\n        return n == 1;"),
('t3','C19',1,G,U1,"        auto it = Image<ElementT>(2, 2).getImageData().begin();\n        return count(input, target) == 1 && *it == target;"),
('t4','C19',1,H,"    const std::string_view clean_sv = sanitize_string_view(sv);","    const std::string_view clean_sv = sanitize_string_view(std::string(sv));"),
('t5','C19',1,H,"    const std::string_view clean_sv = sanitize_string_view(sv);","    const std::string_view clean_sv = std::string(sanitize_string_view(sv));"),
('v1','C19',1,G,U1,"        std::vector<ElementT> seen{target};\n        auto& first = seen[0];\n        for (const auto& v : input.getImageData()) { seen.push_back(v); }\n        return first == target;"),
('v2','C19',1,G,U1,"        std::vector<ElementT> seen{target};\n        auto it = seen.begin();\n        seen.insert(seen.end(), target);\n        return *it == target;"),
('m1','C19',1,G,U1,"        auto copy = input;\n        auto other = std::move(copy);\n        return count(copy, target) == 1;"),
('m2','C19',1,G,U1,"        std::vector<std::vector<ElementT>> rows;\n        std::vector<ElementT> row(input.getWidth());\n        for (std::size_t y = 0; y < input.getHeight(); ++y) { rows.push_back(std::move(row)); }\n        return count(input, target) == 1;"),
('l1','C19',1,G,U1,"        auto make = [&](ElementT t) { return [&t](const ElementT& v) { return v == t; }; };\n        return std::ranges::count_if(input.getImageData(), make(target)) == 1;"),
# equivalents
('e1','C19',0,G,U1,"        const auto& view = subimage(input, 1, 1, 0, 0);\n        const auto& data = view.getImageData();\n        return count(input, target) == 1 && data.size() < 2;"),
('e2','C19',0,G,U1,"        std::vector<ElementT> seen;\n        seen.reserve(8);\n        seen.push_back(target);\n        auto& first = seen[0];\n        seen.push_back(target);\n        return count(input, first) == 1;"),
('e3','C19',0,G,U1,"        auto copy = input;\n        auto other = std::move(copy);\n        copy = other;\n        return count(copy, target) == 1;"),
('e4','C19',0,L,"            return data_[row * cols_ + col];","            auto& value = data_;\n            const auto index = row * cols_ + col;\n            auto* p = value.data() + index;\n            return *p;",0),
('e5','C19',0,G,U1,"        auto make = [](ElementT t) { return [t](const ElementT& v) { return v == t; }; };\n        const auto test = make(target);\n        return std::ranges::count_if(input.getImageData(), test) == 1;"),
('e6','C19',0,H,"    const std::string_view clean_sv = sanitize_string_view(sv);","    const std::string owned(sv);\n    const std::string_view clean_sv = sanitize_string_view(owned);"),
('e7','C19',0,G,U1,"        std::vector<std::vector<ElementT>> rows;\n        for (std::size_t y = 0; y < input.getHeight(); ++y) { std::vector<ElementT> row(input.getWidth()); rows.push_back(std::move(row)); }\n        std::vector<ElementT> r;\n        while (rows.size() > 9) { r = {target}; rows.push_back(std::move(r)); }\n        return count(input, target) == 1;"),
]
