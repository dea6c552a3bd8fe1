H="main.h"; C="main.cpp"
W="        if (std::ranges::size(args) < 2)\n"
M=[
# accesses beyond the check
('a1','C12',1,H,"        auto transform_handler = make_meta_transform_handler<2, master_data_types>(\n            \"abs","        auto transform_handler = make_meta_transform_handler<1, master_data_types>(\n            \"abs"),
('a2','C12',1,H,"        if (std::ranges::size(filtered_args) < MinArgs)\n","        if (std::ranges::size(args) < MinArgs)\n",0),
('a3','C12',1,H,"        if (std::ranges::size(filtered_args) < MinArgs)\n","        if (std::ranges::size(filtered_args) + 1 < MinArgs)\n",1),
('a4','C12',1,H,"const std::size_t levels = (std::ranges::size(filtered_args) > 3) ?","const std::size_t levels = (std::ranges::size(filtered_args) >= 3) ?"),
('a5','C12',1,C,"    std::string command = argv[1];","    std::string command = argv[2];"),
('a6','C12',0,C,"        if (std::ranges::size(args) == 1 && std::string_view(args[0]) == \"all\")","        if (std::ranges::size(args) == 1 || std::string_view(args[1]) == \"all\")"),
('a7','C12',1,C,"            if (!std::ranges::empty(tokens))\n            {\n                segments_tokens.emplace_back(std::move(tokens));\n            }","            segments_tokens.emplace_back(std::move(tokens));"),
('a8','C12',1,C,"            std::ranges::size(segments_tokens.back()) == 1 && \n            segments_tokens.back()[0].starts_with('$'))","            segments_tokens.back()[1].starts_with('$'))"),
('a9','C12',1,H,"        if (std::ranges::size(args) < 6)","        if (std::ranges::size(args) < 5)"),
('a10','C12',1,C,"        if (std::ranges::size(args) < 3)\n","        if (std::ranges::size(args) < 1)\n"),
('a11','C12',1,H,"        if (std::ranges::size(args) < 3)\n        {","        if (std::ranges::size(args) < 3 && os.good())\n        {",0),
('a12','C12',1,C,"            if (!std::ranges::empty(args))\n","            if (std::ranges::size(args) >= 0)\n"),
('a13','C12',1,H,"        for(std::size_t i = 3; i < std::ranges::size(filtered_args); ++i)","        for(std::size_t i = 3; i <= std::ranges::size(filtered_args); ++i)"),
# usage
('u1','C12',1,C,"            os << \"Usage: remove <$var1> [$var2] ... OR remove all\\n\";\n            return;","            return;"),
# equivalents
('e1','C12',0,H,"        if (std::ranges::size(filtered_args) < MinArgs)\n","        const bool enough = std::ranges::size(filtered_args) >= MinArgs;\n        if (!enough)\n",0),
('e2','C12',0,H,"        if (std::ranges::size(filtered_args) < MinArgs)\n","        const auto supplied = filtered_args.size();\n        if (supplied < MinArgs)\n",1),
('e3','C12',0,[(H,"        if (std::ranges::size(filtered_args) < MinArgs)\n        {\n            os << \"Usage: \" << usage_string_ << \"\\n\";\n            if (usage_string_.find(\"[execution_policy]\") != std::string_view::npos)\n            {\n                os << \"       Optional Execution policies: seq, par, par_unseq, unseq\\n\";\n            }\n            return;\n        }\n\n        const std::string_view input_arg = filtered_args[0];\n        const std::string_view output_arg","        if (!enough_arguments(filtered_args, MinArgs, usage_string_, os))\n        {\n            return;\n        }\n\n        const std::string_view input_arg = filtered_args[0];\n        const std::string_view output_arg"),
  (H,"//  MetaScalarHandler template struct implementation\n","template <typename ArgsContainer>\ninline bool enough_arguments(const ArgsContainer& list, const std::size_t required, const std::string_view usage, std::ostream& os)\n{\n    if (std::ranges::size(list) >= required)\n    {\n        return true;\n    }\n    os << \"Usage: \" << usage << \"\\n\";\n    return false;\n}\n\n//  MetaScalarHandler template struct implementation\n")]),
('e4','C12',0,C,"        if (std::ranges::empty(args))\n        {\n            os << \"Usage: remove","        if (args.size() == 0)\n        {\n            os << \"Usage: remove"),
('e5','C12',0,C,"        if (std::ranges::size(args) == 1 && std::string_view(args[0]) == \"all\")","        const bool single = args.size() == 1;\n        if (single && args.front() == \"all\")"),
('e6','C12',0,H,"const std::size_t levels = (std::ranges::size(filtered_args) > 3) ? parse_arg<std::size_t>(filtered_args[3]) : 5;","std::size_t levels = 5;\n        if (const auto n = std::ranges::size(filtered_args); n >= 4)\n        {\n            levels = parse_arg<std::size_t>(filtered_args[3]);\n        }"),
('e7','C12',0,H,"        if (std::ranges::size(args) < 6)\n        {","        bool complete = true;\n        if (std::ranges::size(args) < 6)\n        {\n            complete = false;\n        }\n        if (!complete)\n        {"),
('e8','C12',0,[(H,"        const std::string_view output_arg = args[0];\n        const std::size_t width = parse_arg<std::size_t>(args[1]);\n        const std::size_t height = parse_arg<std::size_t>(args[2]);","        const std::string_view output_arg = args[0];\n        const auto [width, height] = parse_extent(args, 1);"),
 (H,"//  MetaScalarHandler template struct implementation\n","template <typename RangeT>\nrequires (std::same_as<std::remove_cvref_t<std::ranges::range_value_t<RangeT>>, std::string_view>)\ninline std::pair<std::size_t, std::size_t> parse_extent(const RangeT& list, const std::size_t first)\n{\n    return { parse_arg<std::size_t>(list[first]), parse_arg<std::size_t>(list[first + 1]) };\n}\n\n//  MetaScalarHandler template struct implementation\n")]),
('e9','C12',0,C,"            for (std::size_t j = 1; j < std::ranges::size(tokens); ++j)","            for (std::size_t j = 1; j != std::ranges::size(tokens); ++j)"),
('e10','C12',0,H,"        if (std::ranges::size(args) < 6)\n        {","        if (std::ranges::size(args) < 6)\n        {\n            throw_if_verbose();\n".replace("            throw_if_verbose();\n","")),
]
