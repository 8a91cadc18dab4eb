// What source/shared/include/lue/configure.hpp.in generates for a debug build of the framework
#pragma once

#define LUE_BUILD_DATA_MODEL
#define LUE_BUILD_FRAMEWORK
#define LUE_FRAMEWORK_ALGORITHM_DEFAULT_POLICIES_ENABLED 1
#define LUE_FRAMEWORK_ALGORITHM_DEFAULT_VALUE_POLICIES_ENABLED 1
#define LUE_VALIDATE_IDXS 1
#define LUE_ASSERT_CONDITIONS 1


namespace lue {

    class BuildOptions
    {
        public:

            static constexpr bool build_framework{true};
            static constexpr bool framework_with_development_operations{false};
            static constexpr bool framework_with_parallel_io{false};
            static constexpr bool validate_idxs{true};
            static constexpr bool assert_conditions{true};
            static constexpr bool default_policies_enabled{true};
            static constexpr bool default_value_policies_enabled{true};
            static constexpr bool build_qa{true};
            static constexpr bool qa_with_tests{false};
    };

}  // namespace lue
