D="dynamic_loader.h"; C="main.cpp"
MA="""            if (handle_)
            {
#ifdef _WIN32
                FreeLibrary(static_cast<HMODULE>(handle_));
#else
                dlclose(handle_);
#endif
            }
            handle_ = other.handle_;
            other.handle_ = nullptr;
"""
DT="""        if (handle_)
        {
#ifdef _WIN32
            FreeLibrary(static_cast<HMODULE>(handle_));
#else
            dlclose(handle_);
#endif
        }
    }

    // Disable copy"""
MC="""noexcept : handle_(other.handle_)
    {
        other.handle_ = nullptr;
    }"""
AP="    std::vector<DynamicLibrary> active_plugins;\n\n    // Configure the shared state memory workspace\n    auto workspace = std::make_shared<Workspace>();\n"
RF="                    register_fn(registry);\n"
LD="                    if constexpr (requires { active_plugins.emplace_back(std::move(lib)); })"
M=[
('h1','C15',1,D,DT,"    }\n\n    // Disable copy"),
('h2','C15',1,D,MC,"noexcept : handle_(other.handle_)\n    {\n    }"),
('h3','C15',1,D,MA,"            handle_ = other.handle_;\n            other.handle_ = nullptr;\n"),
('h4','C15',1,D,MA,MA.replace("            other.handle_ = nullptr;\n","")),
('h5','C15',1,D,"        if (this != &other)\n","        if (handle_ || this != &other)\n"),
('h6','C15',1,D,"DynamicLibrary(const DynamicLibrary&) = delete;","DynamicLibrary(const DynamicLibrary&) = default;"),
('h7','C15',1,D,"    DynamicLibrary(DynamicLibrary&& other) "+MC,"    DynamicLibrary(DynamicLibrary&& other) noexcept = default;"),
('h8','C15',1,D,"DynamicLibrary& operator=(const DynamicLibrary&) = delete;","DynamicLibrary& operator=(const DynamicLibrary& o) { handle_ = o.handle_; return *this; }"),
('h9','C15',1,D,"    template <typename Signature>","    void close() { if (handle_) { dlclose(handle_); } }\n\n    template <typename Signature>"),
('o1','C15',1,C,AP,"    auto workspace = std::make_shared<Workspace>();\n    std::vector<DynamicLibrary> active_plugins;\n"),
('o2','C15',1,C,"    CommandRegistry registry = command_registration(","    static CommandRegistry registry = command_registration("),
('x1','C15',1,C,LD,RF+LD),
('k1','C15',1,C,RF,RF+"                    if (std::ranges::size(active_plugins) > 16) { active_plugins.clear(); }\n"),
('k2','C15',1,C,RF,RF+"                    active_plugins.pop_back();\n"),
# equivalents
('e1','C15',0,D,MC,"noexcept : handle_(std::exchange(other.handle_, nullptr))\n    {\n    }"),
('e2','C15',0,D,"        if (this != &other)\n        {\n"+MA+"        }\n","        std::swap(handle_, other.handle_);\n"),
('e3','C15',0,[(D,"        if (this != &other)\n        {\n"+MA+"        }\n","        if (this == &other)\n        {\n            return *this;\n        }\n        close();\n        handle_ = other.handle_;\n        other.handle_ = nullptr;\n"),(D,"private:\n","private:\n    void close() noexcept\n    {\n        if (handle_)\n        {\n            dlclose(handle_);\n            handle_ = nullptr;\n        }\n    }\n")]),
('e4','C15',0,D,"        if (this != &other)\n        {\n"+MA+"        }\n","        DynamicLibrary taken(std::move(other));\n        std::swap(handle_, taken.handle_);\n"),
('e5','C15',0,D,DT,"        if (handle_ == nullptr)\n        {\n            return;\n        }\n        dlclose(handle_);\n    }\n\n    // Disable copy"),
('e6','C15',0,C,"    std::vector<DynamicLibrary> active_plugins;\n","    std::list<DynamicLibrary> active_plugins;\n"),
('e7','C15',0,C,LD,"                    os << \"  Opened \" << entry.path().string() << \"\\n\";\n"+LD),
('e8','C15',0,C,"                    DynamicLibrary lib(entry.path());\n","                    auto lib = DynamicLibrary(entry.path());\n"),
]
