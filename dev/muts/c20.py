G="image_operations.h"
M=[
('a','C20',1,G,'''        case mirror:
            padded_image = generate_mirror_padding_image(''','''        case mirror:
            padded_image = generate_replicate_padding_image('''),
('b','C20',1,G,'''width_expansion, height_expansion, value_for_constant_padding);
            break;
        case replicate:''','''width_expansion, height_expansion, value_for_constant_padding);
        case replicate:'''),
('c','C20',0,G,'''        Image<ElementT> padded_image;
        switch (boundaryCondition)
        {
        case constant:
            padded_image = generate_constant_padding_image(std::forward<ExecutionPolicy>(execution_policy), input, width_expansion, height_expansion, value_for_constant_padding);
            break;
        case mirror:
            padded_image = generate_mirror_padding_image(std::forward<ExecutionPolicy>(execution_policy), input, width_expansion, height_expansion, value_for_constant_padding);
            break;
        case replicate:
            padded_image = generate_replicate_padding_image(std::forward<ExecutionPolicy>(execution_policy), input, width_expansion, height_expansion, value_for_constant_padding);
            break;
        }
        return padded_image;''','''        if (boundaryCondition == BoundaryCondition::constant)
        {
            return generate_constant_padding_image(std::forward<ExecutionPolicy>(execution_policy), input, width_expansion, height_expansion, value_for_constant_padding);
        }
        if (boundaryCondition == BoundaryCondition::replicate)
        {
            return generate_replicate_padding_image(std::forward<ExecutionPolicy>(execution_policy), input, width_expansion, height_expansion, value_for_constant_padding);
        }
        return generate_mirror_padding_image(std::forward<ExecutionPolicy>(execution_policy), input, width_expansion, height_expansion, value_for_constant_padding);'''),
('d','C20',1,G,'''                    filter_size1,
                    filter_size2,
                    boundaryCondition
                    );''','''                    filter_size1,
                    filter_size2
                    );'''),
('e','C20',1,G,'''            spatial_kernel,
            boundaryCondition
        );''','''            spatial_kernel,
            BoundaryCondition::mirror
        );'''),
('f','C20',1,G,'''iterations, inlier_threshold, internal::RansacScorer<FloatingType>{});''','''iterations, inlier_threshold, internal::MsacScorer<FloatingType>{});'''),
('g','C20',0,G,'''            case RobustEstimatorMethod::MSAC:
            default:
                std::cout''','''            default:
                std::cout'''),
('h','C20',1,G,'return std::min(dist_sq, threshold_sq);','return dist_sq < threshold_sq ? dist_sq : FloatingType{1};'),
('i','C20',0,G,'return std::min(dist_sq, threshold_sq);','return dist_sq < threshold_sq ? dist_sq : threshold_sq;'),
('j','C20',0,G,'return dist_sq < threshold_sq ? 0.0 : 1.0;','if (dist_sq >= threshold_sq) { return 1.0; }\n                return 0.0;'),
('k','C20',0,G,'''        auto extended_input = generate_padded_image(
            std::forward<ExecutionPolicy>(execution_policy),
            input,
            x_extension_pixel_count,
            y_extension_pixel_count,
            boundaryCondition,
            value_for_constant_padding
        );''','''        const BoundaryCondition mode = boundaryCondition;
        const auto pad = [&](const auto& image)
        {
            return generate_padded_image(std::forward<ExecutionPolicy>(execution_policy), image, x_extension_pixel_count, y_extension_pixel_count, mode, value_for_constant_padding);
        };
        auto extended_input = pad(input);'''),
]
