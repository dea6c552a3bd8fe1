G="image_operations.h"
M=[
('c05a','C05',1,G,'if (image.getDimensionality() != 2)\n        {\n            throw std::invalid_argument("Input image must be 2-dimensional.");','if (image.getDimensionality() < 2)\n        {\n            throw std::invalid_argument("Input image must be 2-dimensional.");'),
('c05b','C05',0,G,'''        if (image.getDimensionality() != 2)
        {
            throw std::invalid_argument("Input image must be 2-dimensional.");
        }
''','''        const bool is_planar = (image.getDimensionality() == 2);
        if (!is_planar) throw std::invalid_argument("Input image must be 2-dimensional.");
'''),
('c05c','C05',1,'image.h','''if constexpr (n != 1)''' ,'if constexpr (n > 5)') if False else
('c05d','C05',0,G,'''            if (input1.getDimensionality() != 2)''','''            if (input1.getDimensionality() > 3)'''),
('c05e','C05',0,G,'''            if (input1.getDimensionality() != 2)
            {
                throw std::runtime_error("Unsupported dimension!");
            }
            if (input2.getDimensionality() != 2)
            {
                throw std::runtime_error("Unsupported dimension!");
            }
            if (input3.getDimensionality() != 2)
            {
                throw std::runtime_error("Unsupported dimension!");
            }''','''            const auto require_planar = [](const auto& img) { if (img.getSize().size() != 2) { throw std::runtime_error("Unsupported dimension!"); } };
            require_planar(input1); require_planar(input2);
            for (const auto* p : {&input3}) { if (p->getDimensionality() != std::size_t{2}) throw std::runtime_error("Unsupported dimension!"); }'''),
]
