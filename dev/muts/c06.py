IO='image_operations.h'
M=[
('c06_nocrit','C06',1,IO,'''                        #pragma omp critical
                        {
                            //if `append_range`''','''                        {
                            //if `append_range`'''),
('c06_nolock','C06',1,IO,'''                    std::lock_guard<std::mutex> lock(mtx);
                    matches.emplace_back(i, best_match_index);''','''                    matches.emplace_back(i, best_match_index);''',0),
('c06_lockscope','C06',1,IO,'''                    std::lock_guard<std::mutex> lock(mtx);
                    matches.emplace_back(i, best_match_index);''','''                    {
                        std::lock_guard<std::mutex> lock(mtx);
                    }
                    matches.emplace_back(i, best_match_index);''',0),
('c06_localmtx','C06',1,IO,'''                    std::lock_guard<std::mutex> lock(mtx);
                    matches.emplace_back(i, best_match_index);''','''                    std::mutex local_mutex;
                    std::lock_guard<std::mutex> lock(local_mutex);
                    matches.emplace_back(i, best_match_index);''',0),
('c06_red','C06',1,IO,'reduction(+:sum_z, sum_dx2_z, sum_dy2_z, sum_dxdy_z)','reduction(+:sum_z, sum_dx2_z, sum_dy2_z)'),
('c06_hoist','C06',1,IO,'''        #pragma omp parallel for schedule(static)
        for (std::size_t y = 0; y < new_height; ++y)
        {
            for (std::size_t x = 0; x < new_width; ++x)
            {
                const std::size_t source_x = static_cast<std::size_t>(x * x_ratio);
                const std::size_t source_y =''','''        std::size_t source_x, source_y;
        #pragma omp parallel for schedule(static)
        for (std::size_t y = 0; y < new_height; ++y)
        {
            for (std::size_t x = 0; x < new_width; ++x)
            {
                source_x = static_cast<std::size_t>(x * x_ratio);
                source_y ='''),
('c06_hoist2','C06',1,'image_io.h','''            #pragma omp parallel for
            for (std::ptrdiff_t y = 0; y < static_cast<std::ptrdiff_t>(height); ++y)
            {
                std::ostringstream oss;''','''            std::ostringstream oss;
            #pragma omp parallel for
            for (std::ptrdiff_t y = 0; y < static_cast<std::ptrdiff_t>(height); ++y)
            {
                oss.str("");'''),
('c06_push','C06',1,'image_io.h','''                row_strings[static_cast<std::size_t>(y)] = oss.str();''','''                row_strings.push_back(oss.str());'''),
('c06_x1','C06',1,IO,'''        #pragma omp parallel for
        for (std::size_t y = 0; y < ysize; ++y)
        {
            auto x2 = static_cast<InputT>(y) - static_cast<InputT>(centery);
            auto x2_2 = x2 * x2;
            for (std::size_t x = 0; x < xsize; ++x)
            {
                auto x1 = static''','''        InputT x1;
        #pragma omp parallel for
        for (std::size_t y = 0; y < ysize; ++y)
        {
            auto x2 = static_cast<InputT>(y) - static_cast<InputT>(centery);
            auto x2_2 = x2 * x2;
            for (std::size_t x = 0; x < xsize; ++x)
            {
                x1 = static'''),
('c06_priv','C06',0,IO,'''        #pragma omp parallel for
        for (std::size_t y = 0; y < ysize; ++y)
        {
            auto x2 = static_cast<InputT>(y) - static_cast<InputT>(centery);
            auto x2_2 = x2 * x2;
            for (std::size_t x = 0; x < xsize; ++x)
            {
                auto x1 = static''','''        InputT x1;
        #pragma omp parallel for private(x1)
        for (std::size_t y = 0; y < ysize; ++y)
        {
            auto x2 = static_cast<InputT>(y) - static_cast<InputT>(centery);
            auto x2_2 = x2 * x2;
            for (std::size_t x = 0; x < xsize; ++x)
            {
                x1 = static'''),
('c06_inplace','C06',1,IO,'''output.at_without_boundary_check(input.getWidth() - x - 1, y) = input.at_without_boundary_check(x, y);''','''output.at_without_boundary_check(input.getWidth() - x - 1, y) = output.at_without_boundary_check(x, y);'''),
('c06_omp_conv','C06',1,IO,'''            //  Cannot use #pragma omp parallel for collapse(2) here because the output_index, index2, and index3 are not thread-safe.
''','''            #pragma omp parallel for collapse(2)
'''),
('c06_sum','C06',1,IO,'''            [&](const std::size_t idx)
            {
                const std::ptrdiff_t out_y = static_cast<std::ptrdiff_t>(idx / out_w);
                const std::ptrdiff_t out_x = static_cast<std::ptrdiff_t>(idx % out_w);

                OutputT sum{};
''','''            [&, sum = OutputT{}](const std::size_t idx) mutable
            {
                const std::ptrdiff_t out_y = static_cast<std::ptrdiff_t>(idx / out_w);
                const std::ptrdiff_t out_x = static_cast<std::ptrdiff_t>(idx % out_w);

                sum = OutputT{};
'''),
('c06_static','C06',1,IO,'''                OutputT sum{};

                const std::ptrdiff_t y1_start''','''                static OutputT sum;
                sum = OutputT{};

                const std::ptrdiff_t y1_start'''),
('c06_mod','C06',1,IO,'''                const std::size_t y_new = idx / new_width;
                const std::size_t x_new = idx % new_width;
    
                // Map''','''                const std::size_t y_new = idx % new_width;
                const std::size_t x_new = idx % new_width;
    
                // Map'''),
('c06_wrongdiv','C06',1,IO,'''                const std::ptrdiff_t out_x = static_cast<std::ptrdiff_t>(idx % out_w);

                OutputT sum{};''','''                const std::ptrdiff_t out_x = static_cast<std::ptrdiff_t>(idx % out_h);

                OutputT sum{};'''),
('c06_ok1','C06',0,IO,'''        #pragma omp parallel for schedule(static)
        for (std::size_t y = 0; y < new_height; ++y)''','''        #pragma omp parallel for schedule(dynamic, 4)
        for (std::size_t y = 0; y < new_height; ++y)'''),
('c06_ok2','C06',0,IO,'''                output.at_without_boundary_check(static_cast<std::size_t>(out_x), static_cast<std::size_t>(out_y)) = sum;''','''                output.set(idx) = sum;'''),
('c06_ok3','C06',0,IO,'''                    std::lock_guard<std::mutex> lock(mtx);
                    matches.emplace_back(i, best_match_index);''','''                    mtx.lock();
                    matches.emplace_back(i, best_match_index);
                    mtx.unlock();''',0),
('c06_ok4','C06',0,IO,'''                    std::lock_guard<std::mutex> lock(mtx);
                    matches.emplace_back(i, best_match_index);''','''                    const auto append = [&](std::size_t a, std::size_t b)
                    {
                        std::scoped_lock guard{ mtx };
                        matches.emplace_back(a, b);
                    };
                    append(i, best_match_index);''',0),
('c06_octave','C06',1,IO,'octaves[i] = apply_each(input, [&, i]','octaves.at(0) = apply_each(input, [&, i]'),
]
