H="main.h"
LK="        std::lock_guard<std::mutex> lock(mtx);\n"
M=[
('l1','C14',1,H,LK+"        memory_store.clear();","        memory_store.clear();"),
('l2','C14',1,H,LK+"        memory_store.clear();","        { std::lock_guard<std::mutex> lock(mtx); }\n        memory_store.clear();"),
('l3','C14',1,H,LK+"        memory_store.clear();","        std::lock_guard<std::mutex>{mtx};\n        memory_store.clear();"),
('l4','C14',1,H,LK+"        memory_store.clear();","        std::unique_lock<std::mutex> lock(mtx, std::defer_lock);\n        memory_store.clear();"),
('l5','C14',1,H,LK+"        memory_store.clear();","        std::unique_lock<std::mutex> lock(mtx);\n        lock.unlock();\n        memory_store.clear();"),
('l6','C14',1,H,LK+"        memory_store.clear();","        std::mutex mtx;\n        std::lock_guard<std::mutex> lock(mtx);\n        memory_store.clear();"),
('l7','C14',1,H,"        std::lock_guard<std::mutex> lock(workspace.mtx);\n        for","        for"),
('l8','C14',1,H,LK+"        const std::string key = std::string(sanitize_string_view(name));","        const std::string key = std::string(sanitize_string_view(name));\n        if (!memory_store.contains(key)) { return false; }\n"+LK),
('n1','C14',1,H,LK+"        memory_store.clear();",LK+"        list_variables(std::cerr);\n        memory_store.clear();"),
('n2','C14',1,H,"        std::lock_guard<std::mutex> lock(workspace.mtx);\n        for","        std::lock_guard<std::mutex> lock(workspace.mtx);\n        workspace.list_variables(os);\n        for"),
('t1','C14',1,H,"        memory_store[std::string(sanitize_string_view(name))] = std::forward<T>(item);","        memory_store.emplace(std::string(sanitize_string_view(name)), std::forward<T>(item));"),
('t2','C14',1,H,"        const std::string key = std::string(sanitize_string_view(name));","        const std::string key{ name };"),
('t3','C14',1,H,"                memory_store[new_key] = std::move(it->second);\n                memory_store.erase(it);","                memory_store.emplace(new_key, std::move(it->second));\n                memory_store.erase(it);"),
('t4','C14',1,H,"                memory_store[new_key] = std::move(it->second);\n                memory_store.erase(it);","                memory_store[new_key] = std::move(it->second);"),
('t5','C14',1,H,"            if (new_key != old_key)\n            {","            if (memory_store.contains(new_key)) { return false; }\n            {"),
('t6','C14',1,H,"            memory_store.erase(it);\n            return true;\n        }\n        return false;","            memory_store.erase(it);\n        }\n        return true;",0),
('t7','C14',1,H,"            if (new_key != old_key)\n            {","            {"),
# equivalents
('e1','C14',0,H,LK+"        memory_store.clear();","        mtx.lock();\n        memory_store.clear();\n        mtx.unlock();"),
('e2','C14',0,H,LK+"        memory_store.clear();","        std::scoped_lock guard(mtx);\n        memory_store.clear();"),
('e3','C14',0,H,LK+"        const std::string key = std::string(sanitize_string_view(name));\n        if (auto it = memory_store.find(key); it != std::ranges::end(memory_store))\n        {\n            memory_store.erase(it);\n            return true;\n        }\n        return false;",LK+"        return erase_key(std::string(sanitize_string_view(name)));\n    }\n    bool erase_key(const std::string& key)\n    {\n        return memory_store.erase(key) == 1;"),
('e4','C14',0,H,"        memory_store[std::string(sanitize_string_view(name))] = std::forward<T>(item);","        memory_store.insert_or_assign(std::string(sanitize_string_view(name)), std::forward<T>(item));"),
('e5','C14',0,H,"                memory_store[new_key] = std::move(it->second);\n                memory_store.erase(it);","                auto value = std::move(it->second);\n                memory_store.erase(it);\n                memory_store[new_key] = std::move(value);"),
('e6','C14',0,H,"        memory_store[std::string(sanitize_string_view(name))] = std::forward<T>(item);","        auto& slot = memory_store[key_of(name)];\n        slot = std::forward<T>(item);\n    }\n    static std::string key_of(const std::string_view name)\n    {\n        return std::string(sanitize_string_view(name));"),
('e7','C14',0,[('main.h',"        const std::string key = std::string(sanitize_string_view(name));","        const std::string key = workspace_key(name);"),('main.h',"//  Workspace struct implementation\n","inline std::string workspace_key(const std::string_view name)\n{\n    const auto clean = sanitize_string_view(name);\n    return std::string(clean);\n}\n\n//  Workspace struct implementation\n")]),
]
