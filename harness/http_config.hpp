// An HTTP server made by the injector from the text of an environment configuration.
#pragma once
#include <memory>
#include <string>
namespace Balau::Network::Http { class HttpServer; }
namespace Balau { class Injector; }
struct Configured {
	std::shared_ptr<Balau::Injector> injector;
	std::shared_ptr<Balau::Network::Http::HttpServer> server;
};
Configured configuredServer(const std::string & text);
