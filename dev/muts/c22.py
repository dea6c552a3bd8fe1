G="image_operations.h"
B="basic_functions.h"
M=[
('a','C22',0,G,'const std::ptrdiff_t x1_end = std::min(x_w - 1, out_x);','const std::ptrdiff_t x1_end = std::min(x_w - 1, out_x - 1);'),
('b','C22',0,G,'const std::ptrdiff_t x1_end = std::min(x_w - 1, out_x);','const std::ptrdiff_t x1_end = (out_x < x_w) ? out_x : x_w - 1;'),
('c','C22',0,G,'        std::ranges::reverse(y_flipped_data);\n','        std::ranges::reverse(y_flipped_data);\n        if (y.getHeight() == y.getWidth()) std::ranges::reverse(y_flipped_data);\n'),
('d','C22',1,G,'''            std::vector<std::size_t>{width, height}, 
            std::vector<std::size_t>{xcenter, ycenter}, 
            default_element);
    }

    //  subimage2 template''','''            std::vector<std::size_t>{width, height}, 
            std::vector<std::size_t>{xcenter, ycenter});
    }

    //  subimage2 template'''),
('e','C22',0,G,'''                auto x2 = static_cast<InputT>(y) - params.y0;
                auto x2_2 = x2 * x2;
                for (std::size_t x = 0; x < xsize; ++x)''','''                auto x2 = static_cast<InputT>(y) - params.y0;
                auto x2_2 = x2 * x2;
                for (std::size_t x = 0; x < ysize; ++x)'''),
('f','C22',0,G,'''                            exp_para * (
                                sigma2_2 * x1_2 -
                                (static_cast<InputT>(2) * params.rho''','''                            exp_para * (
                                sigma2_2 * x1_2 +
                                (static_cast<InputT>(2) * params.rho'''),
('g','C22',1,G,'const OutputT alpha2 = (y == 0) ? (SQRT2 / static_cast<OutputT>(2)) : (OutputT{1.0});','const OutputT alpha2 = (y == 1) ? (SQRT2 / static_cast<OutputT>(2)) : (OutputT{1.0});'),
('h','C22',1,G,'''                        return diff * diff;
                    }
                });
        }
''','''                        return diff;
                    }
                });
        }
'''),
('i','C22',0,G,'''                    const auto diff = val1 - val2;
                    if constexpr (is_complex<ValueType>::value)
                    {
                        // For complex numbers, squared distance is the norm (squared magnitude).
                        return std::norm(diff);''','''                    const auto diff = val2 - val1;
                    if constexpr (is_complex<ValueType>::value)
                    {
                        // For complex numbers, squared distance is the norm (squared magnitude).
                        return std::norm(diff);'''),
('j','C22',0,G,'''        output = paste2D(std::forward<ExecutionPolicy>(execution_policy), output, input, width_expansion, height_expansion, default_value);
        return output;''','''        output = paste2D(std::forward<ExecutionPolicy>(execution_policy), output, input, height_expansion, width_expansion, default_value);
        return output;'''),
('k','C22',0,G,'''        output = paste2D(std::forward<ExecutionPolicy>(execution_policy), output, input, width_expansion, height_expansion, default_value);
        return output;''','''        return paste2D(std::forward<ExecutionPolicy>(execution_policy), output, input, width_expansion, height_expansion, default_value);'''),
('m','C22',1,G,'auto sum = std::reduce(std::forward<ExecutionPolicy>(execution_policy), std::ranges::cbegin(input), std::ranges::cend(input));','auto sum = std::reduce(std::forward<ExecutionPolicy>(execution_policy), std::ranges::cbegin(input), std::ranges::cend(input), ElementT{1});'),
('n','C22',0,G,'auto sum = std::reduce(std::forward<ExecutionPolicy>(execution_policy), std::ranges::cbegin(input), std::ranges::cend(input));','ElementT sum{};\n        for (const auto& each : input) sum += each;'),
('o','C22',0,G,'''                for (std::size_t x = 0; x < width; ++x) {
                    output.at(y, x) = input.at(x, y);
                }''','''                std::size_t x = 0;
                while (x < width)
                {
                    const auto value = input.at(x, y);
                    output.at(y, x) = value;
                    ++x;
                }'''),
('p','C22',0,G,'''        auto sigma1_2 = params.sigma_x * params.sigma_x;
        auto sigma2_2 = params.sigma_y * params.sigma_y;
        auto normalize_factor =
            normalize_factor_input / (static_cast<InputT>(2.0) * std::numbers::pi_v<InputT> *params''','''        const auto sigma1_2 = std::pow(params.sigma_x, static_cast<InputT>(2));
        const auto sigma2_2 = std::pow(params.sigma_y, static_cast<InputT>(2));
        auto normalize_factor =
            normalize_factor_input / (static_cast<InputT>(2.0) * std::numbers::pi_v<InputT> *params'''),
('q','C22',0,G,'''                std::ranges::cbegin(range1),
                std::ranges::cend(range1),
                std::ranges::cbegin(range2),
                ResultType{ 0 },
                std::plus<>{},''','''                std::ranges::cbegin(range2),
                std::ranges::cend(range2),
                std::ranges::cbegin(range1),
                ResultType{ 0 },
                std::plus<>{},'''),
('r','C22',0,G,'if (result.get(idx) == target)','if (result.get(idx) >= target)'),
('s','C22',0,G,'''                std::forward<ExecutionPolicy>(policy),
                each_plane,
                new_width,
                new_height,
                a);''','''                std::forward<ExecutionPolicy>(policy),
                each_plane,
                new_width,
                new_height);'''),
('t','C22',0,G,'auto H_inv = linalg::invert(H);','auto H_inv = linalg::invert(linalg::invert(H));'),
('u','C22',0,G,'''            const FloatingType h11 = H_inv.at(0, 0), h12''','''            const auto& inverse = H_inv;
            const FloatingType h11 = inverse.at(0, 0), h12'''),
('v','C22',0,G,'        return replace(std::execution::seq, input, target, new_val);','        return replace(std::execution::seq, input, new_val, target);'),
('w','C22',0,G,'        return replace(std::execution::seq, input, target, new_val);','        auto output = replace(std::execution::seq, input, target, new_val);\n        return output;'),
('x','C22',1,G,"const auto alpha1 = (plane_index == 0) ? (SQRT2 / static_cast<OutputT>(2)) : (OutputT{1.0});","const auto alpha1 = (plane_index == 0) ? (SQRT2) : (OutputT{1.0});",1),
]
