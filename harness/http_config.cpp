#define VF_NO_MAIN
#include "http_config.hpp"
#include <Balau/Type/ToString.hpp>
#include <Balau/BalauConfig.hpp>
#undef BALAU_ENABLE_CURL
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Network/Http/Server/HttpServer.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/System/SystemClock.hpp>

using namespace Balau;
using namespace Balau::Network::Http;
namespace {
struct Wiring : ApplicationConfiguration {
	void configure() const override {
		bind<System::Clock>().toSingleton<System::SystemClock>();
		bind<HttpServer>().toSingleton();
	}
};
}
Configured configuredServer(const std::string & text) {
	static const bool registered = (EnvironmentConfiguration::registerValueType<Network::Endpoint>("endpoint"), true);
	(void) registered;
	std::shared_ptr<Resource::Uri> env(new Resource::StringUri(text));
	std::shared_ptr<Resource::Uri> spec(new Resource::File(VF_REPO "/src/main/resources/BalauConfig/balau.thconf"));
	std::shared_ptr<Resource::Uri> more(new Resource::StringUri("http.server.register.signal.handler : boolean = false\n"));
	Configured c;
	c.injector = Injector::create(Wiring(), EnvironmentConfiguration({ env }, { spec, more }));
	c.server = c.injector->getShared<HttpServer>();
	return c;
}
