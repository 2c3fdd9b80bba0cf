// Stand-in for dal/utilities/exceptions.cpp in the symbolic build: same throw behaviour, no message formatting.
#include <dal/platform/platform.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
namespace Dal {
    namespace exception {
        XStackInfo_::XStackInfo_(const char* name, const int& val) : name_(name), value_(&val), type_(Type_::INT) {}
        XStackInfo_::XStackInfo_(const char* name, const double& val) : name_(name), value_(&val), type_(Type_::DBL) {}
        XStackInfo_::XStackInfo_(const char* name, const String_& val) : name_(name), value_(&val), type_(Type_::STR) {}
        XStackInfo_::XStackInfo_(const char* name, const char* val) : name_(name), value_(val), type_(Type_::CSTR) {}
        XStackInfo_::XStackInfo_(const char* name, const Date_& val) : name_(name), value_(&val), type_(Type_::DATE) {}
        XStackInfo_::XStackInfo_(const char* name, const DateTime_& val) : name_(name), value_(&val), type_(Type_::DATETIME) {}
        XStackInfo_::XStackInfo_(const char* msg) : name_(msg), value_(nullptr), type_(Type_::VOID) {}
        std::string XStackInfo_::Message() const { return name_; }
        void PushStack(const XStackInfo_&) {}
        void PopStack() {}
    }
    Exception_::Exception_(const std::string&, long, const std::string&, const char* msg) : std::runtime_error(msg) {}
}
