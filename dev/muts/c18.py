G="image_operations.h"
B="basic_functions.h"
PL='''                    each_plane,
                    sigma1,
                    sigma2,
                    radians,
                    filter_size1,
                    filter_size2,
                    boundaryCondition
                    );'''
BR='''            return imgaussfilt(
                std::execution::seq,
                input,
                sigma,
                sigma,
                static_cast<int>(computeFilterSizeFromSigma(sigma)),
                static_cast<int>(computeFilterSizeFromSigma(sigma)),
                boundaryCondition,
                value_for_constant_padding);'''
M=[
('a','C18',1,G,PL,PL.replace(',\n                    boundaryCondition','')),
('b','C18',1,G,PL,PL.replace('sigma1','X').replace('sigma2','sigma1').replace('X','sigma2')),
('c','C18',1,G,PL,PL.replace('size1','X').replace('size2','size1').replace('X','size2')),
('d','C18',0,G,'''        return apply_each(
            input,
            [&](auto&& each_plane)
            {
                return imgaussfilt(
                    std::forward<ExecutionPolicy>(execution_policy),
'''+PL,'''        const auto condition = boundaryCondition;
        const auto s1 = sigma1;
        return apply_each(
            input,
            [&](auto&& each_plane)
            {
                return imgaussfilt(
                    std::forward<ExecutionPolicy>(execution_policy),
'''+PL.replace('boundaryCondition','condition').replace('sigma1','s1')),
('e','C18',1,G,BR,BR.replace(',\n                value_for_constant_padding','')),
('f','C18',1,G,BR,BR.replace('boundaryCondition','BoundaryCondition::mirror')),
('g','C18',1,G,'        return replace(std::execution::seq, input, target, new_val);','        return replace(std::execution::seq, input, new_val, target);'),
('h','C18',0,G,'''        if (filter_size == 0)
        {
'''+BR+'''
        }
        return imgaussfilt(
                        std::execution::seq,
                        input,
                        sigma,
                        sigma,
                        filter_size,
                        filter_size,
                        boundaryCondition,
                        value_for_constant_padding);''','''        const int size = (filter_size == 0) ? static_cast<int>(computeFilterSizeFromSigma(sigma)) : static_cast<int>(filter_size);
        const auto filtered = imgaussfilt(
                        std::execution::seq,
                        input,
                        sigma,
                        sigma,
                        size,
                        size,
                        boundaryCondition,
                        value_for_constant_padding);
        return filtered;'''),
('i','C18',1,G,'''        filter_mask_y = divides(filter_mask_y, sum_result);             //  Normalization
        output = conv2(output, filter_mask_y, true);''','''        filter_mask_y = divides(filter_mask_y, sum_result);             //  Normalization
        output = conv2(output, filter_mask_y, true);''') if False else
('i','C18',1,G,'''                                        (static_cast<double>(filter_size2) + 1.0) / 2.0,
                                        sigma2));''','''                                        (static_cast<double>(filter_size2) + 1.0) / 2.0,
                                        sigma1));'''),
('j','C18',0,G,'''        return apply_each(input, [&](auto&& planes) { return abs(std::forward<ExPo>(execution_policy), planes); });''','''        const auto magnitude = [&](auto&& planes) { return abs(std::forward<ExPo>(execution_policy), planes); };
        return apply_each(input, magnitude);'''),
]
