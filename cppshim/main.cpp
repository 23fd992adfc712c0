// The main loop of the driver.
#include "driver.h"

namespace drv {
std::map<int, Handler>& handlers() {
  static std::map<int, Handler> instance;
  return instance;
}
}  // namespace drv

int main() {
  Json::CharReaderBuilder reader_builder;
  Json::StreamWriterBuilder writer;
  writer.settings_["indentation"] = "";
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line == "exit") break;
    Json::Value response(Json::objectValue);
    {
      Json::Value request;
      std::string errs;
      const std::unique_ptr<Json::CharReader> reader(
          reader_builder.newCharReader());
      if (!reader->parse(line.data(), line.data() + line.size(), &request,
                         &errs)) {
        response["driver"] = errs;
      } else {
        drv::handlers().at(request["s"].asInt()).run(request, &response);
      }
    }
    std::cout << Json::writeString(writer, response) << std::endl;
  }
  return 0;
}
