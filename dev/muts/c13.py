H="main.h"; C="main.cpp"
IN="""            if (schema.in_idx != -1 && !std::ranges::empty(prev_pipe_var))
            {
                const int insert_pos = std::min(schema.in_idx, static_cast<int>(std::ranges::size(args_str)));
                args_str.insert(std::ranges::begin(args_str) + insert_pos, prev_pipe_var);
            }

"""
OUT="""            if (schema.out_idx != -1 && !std::ranges::empty(next_pipe_var))
            {
                const int insert_pos = std::min(schema.out_idx, static_cast<int>(std::ranges::size(args_str)));
                args_str.insert(std::ranges::begin(args_str) + insert_pos, next_pipe_var);
            }

"""
M=[
('s1','C13',1,C,'"count", "Count occurrences of a specific value in an image or container.", CombinerSchema','"count", "Count occurrences of a specific value in an image or container.", TransformerSchema'),
('s2','C13',1,H,"constexpr auto CombinerSchema = IOSchema{ 0, 2 };","constexpr auto CombinerSchema = IOSchema{ 0, 1 };"),
('s3','C13',1,C,'"info", "Display basic information about an image.", TerminatorSchema','"info", "Display basic information about an image.", TransformerSchema'),
('s4','C13',1,C,'"ones", "Generate an image filled with ones.", CreatorSchema','"ones", "Generate an image filled with ones.", GeneratorSchema'),
('s5','C13',1,H,"        const std::string_view input_arg = filtered_args[0];\n        const std::string_view output_arg = filtered_args[1];\n\n        // Parse trailing","        const std::string_view input_arg = filtered_args[1];\n        const std::string_view output_arg = filtered_args[0];\n\n        // Parse trailing"),
('s6','C13',1,C,"        const std::string_view urbg_type = args[0];\n        const std::string_view output_arg = args[1];","        const std::string_view urbg_type = args[1];\n        const std::string_view output_arg = args[0];"),
('s7','C13',1,C,'CommandBundle{"bicubic_resize", "Resize an image using Bicubic interpolation.", TransformerSchema','CommandBundle{"bicubic_resize", "Resize an image using Bicubic interpolation.", GeneratorSchema'),
('s8','C13',1,H,"        const std::string_view elem_arg = args[1];\n        const std::string_view output_arg = args[2];","        const std::string_view elem_arg = args[2];\n        const std::string_view output_arg = args[1];"),
('g1','C13',1,C,IN+OUT,OUT+IN),
('g2','C13',1,C,"            prev_pipe_var = next_pipe_var;\n",""),
('g3','C13',1,C,OUT,OUT.replace("insert_pos, next_pipe_var","insert_pos, prev_pipe_var")),
('g4','C13',1,C,OUT,OUT.replace("std::min(schema.out_idx","std::min(schema.in_idx")),
('g5','C13',1,C,IN,IN.replace("schema.in_idx != -1","schema.out_idx != -1")),
('r1','C13',1,H,"copy_cmd.args = {cmd1_in, cmd2_out};","copy_cmd.args = {cmd1_in, cmd1_out};"),
('r1b','C13',0,H,"copy_cmd.args = {cmd1_in, cmd1_out};","copy_cmd.args = { std::move(cmd1_in), std::move(cmd1_out) };"),
('r2','C13',1,H,"                    if (!cmd1_out.empty() && cmd1_out == cmd2_in)","                    if (!cmd1_out.empty() && !cmd2_in.empty())"),
('r3','C13',1,H,"if (update_in(cmd2, cmd1_in))","if (update_in(cmd2, cmd1_out))"),
('r4','C13',1,H,"if (update_out(cmd1, cmd2_out))","if (update_out(cmd1, cmd2_in))"),
# equivalents
('e1','C13',0,C,'"info", "Display basic information about an image.", TerminatorSchema','"info", "Display basic information about an image.", IOSchema{ 0, -1 }'),
('e2','C13',0,H,"        const std::string_view input_arg = filtered_args[0];\n        const std::string_view output_arg = filtered_args[1];\n\n        // Parse trailing","        const std::string_view output_arg = filtered_args[1];\n        const std::string_view input_arg = filtered_args.front();\n\n        // Parse trailing"),
('e3','C13',0,C,OUT,OUT.replace("const int insert_pos","const auto position").replace("+ insert_pos","+ position")),
('e4','C13',0,H,"                    if (!cmd1_out.empty() && cmd1_out == cmd2_in)","                    const bool chained = cmd1_out == cmd2_in;\n                    if (!cmd1_out.empty() && chained)"),
('e5','C13',0,C,"            prev_pipe_var = next_pipe_var;\n","            prev_pipe_var = std::move(next_pipe_var);\n"),
('e6','C13',0,H,"        const std::string_view output_arg = args[2];","        const std::string output_name{ args[2] };\n        const std::string_view output_arg = output_name;",0),
]
