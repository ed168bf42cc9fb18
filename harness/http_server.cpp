// The HTTP server and client in one unit (the e-mail web application needs libcurl, which the build leaves out).
#include <Balau/Type/ToString.hpp>
#include <Balau/BalauConfig.hpp>
#undef BALAU_ENABLE_CURL
#include <Balau/Network/Http/Client/HttpClient.cpp>
#include <Balau/Network/Http/Server/HttpServer.cpp>
#include <Balau/Network/Http/Server/HttpSession.cpp>
#include <Balau/Network/Http/Server/HttpWebApp.cpp>
#include <Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp>
#include <Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp>
#include <Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp>
#include <Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp>
#include <Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.cpp>
#include <Balau/Network/Http/Server/WsWebApps/EchoingWsWebApp.cpp>
#include <Balau/Network/Http/Server/WsWebApps/RoutingWsWebApp.cpp>
#include <Balau/Network/Utilities/BalauLogger.cpp>
#include <Balau/Network/Utilities/MimeTypes.cpp>
