F='image_operations.h'
M=[
('c11a','C11',1,F,"""    static auto getGplane(const Image<RGB_DOUBLE>& input)
    {
        return getPlane(input, 1);""","""    static auto getGplane(const Image<RGB_DOUBLE>& input)
    {
        return getPlane(input, 2);"""),
('c11b','C11',1,F,"""            OutputT hsv {   image_data_h[index],
                        image_data_s[index],
                        image_data_v[index]};""","""            OutputT hsv {   image_data_h[index],
                        image_data_v[index],
                        image_data_s[index]};"""),
('c11c','C11',1,F,"getPlane(input1, 1), getPlane(input2, 1), args...","getPlane(input1, 1), getPlane(input2, 0), args..."),
('c11d','C11',1,F,"        return constructHSV(Hplane.get(), Splane.get(), Vplane.get());\n    }","        return constructHSV(Hplane.get(), Vplane.get(), Splane.get());\n    }"),
('c11e','C11',1,F,"        if (index >= channel_count)","        if (index > channel_count)",0),
('c11f','C11',1,'basic_functions.h',"return std::array<T, N + 1>{ a[I]..., t };","return std::array<T, N + 1>{ t, a[I]... };"),
('c11g','C11',1,F,"            output.emplace_back(std::invoke(operation, getPlane(input1, channel_index), getPlane(input2, channel_index), args...));","            output.emplace_back(std::invoke(operation, getPlane(input1, channel_index), getPlane(input2, 0), args...));"),
('c11h','C11',1,F,"""                       static_cast<GrayScale>(image_data[index].channels[1]),
                       static_cast<GrayScale>(image_data[index].channels[2])};""","""                       static_cast<GrayScale>(image_data[index].channels[2]),
                       static_cast<GrayScale>(image_data[index].channels[1])};"""),
('c11i','C11',1,'base_types.h',"                input.channels[1] + channels[1],","                input.channels[1] + channels[2],",0),
('c11j','C11',1,'base_types.h',"                channels_output[i] = channels[i] - input.channels[i];","                channels_output[i] = input.channels[i] - channels[i];"),
('c11k','C11',1,'base_types.h',"            for(std::size_t i = 0; i < channels.size(); ++i)\n            {\n                channels_output[i] = channels[i] + input","            for(std::size_t i = 1; i < channels.size(); ++i)\n            {\n                channels_output[i] = channels[i] + input"),
# behaviour preserving
('c11l','C11',0,F,"""        std::vector<OutputT> new_data;
        new_data.resize(h.count());
        #pragma omp parallel for
        for (std::size_t index = 0; index < h.count(); ++index)
        {
            OutputT hsv {   image_data_h[index],
                        image_data_s[index],
                        image_data_v[index]};
            new_data[index] = hsv;
        }""","""        std::vector<OutputT> new_data;
        new_data.reserve(h.count());
        for (std::size_t index = 0; index < h.count(); ++index)
        {
            const auto hue = image_data_h[index];
            const auto sat = image_data_s[index];
            const auto val = image_data_v[index];
            new_data.push_back(OutputT{ hue, sat, val });
        }"""),
('c11m','C11',0,F,"""        auto input_data = input.getImageData();
        std::vector<OutputT> output_data;
        output_data.resize(input.count());
        #pragma omp parallel for
        for (std::size_t i = 0; i < input.count(); ++i)
        {
            output_data[i] = input_data[i].channels[index];
        }
        auto output = Image<OutputT>(output_data, input.getSize());
        return output;""","""        auto input_data = input.getImageData();
        std::vector<OutputT> output_data(input_data.size());
        std::transform(input_data.begin(), input_data.end(), output_data.begin(), [index](const auto& p) { return p.channels[index]; });
        return Image<OutputT>(output_data, input.getSize());""",0),
('c11n','C11',0,F,"""        auto plane1 = std::async(std::launch::async, [&] { return std::invoke(operation, getPlane(input1, 0), getPlane(input2, 0), args...); });
        auto plane2""","""        auto run = [&](std::size_t c) { return std::invoke(operation, getPlane(input1, c), getPlane(input2, c), args...); };
        auto plane1 = std::async(std::launch::async, run, std::size_t{0});
        auto plane2"""),
('c11o','C11',0,F,"""        return constructHSV(Hplane.get(), Splane.get(), Vplane.get());
    }""","""        auto h = Hplane.get();
        auto s = Splane.get();
        auto v = Vplane.get();
        return constructHSV(h, s, v);
    }"""),
('c11p','C11',0,F,"        if (index >= channel_count)\n        {\n            throw","        if (!(index < channel_count))\n        {\n            throw"),
('c11q','C11',0,'base_types.h',"            std::array<ElementT, channel_count> channels_output;\n            for(std::size_t i = 0; i < channels.size(); ++i)\n            {\n                channels_output[i] = channels[i] + input.channels[i];\n            }","            auto channels_output = channels;\n            for(std::size_t i = 0; i < channel_count; ++i)\n            {\n                channels_output[i] += input.channels[i];\n            }"),
]
