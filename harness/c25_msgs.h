/* generated by hand-written tables; see c25_frame.c for the notation */
#if MSET == 1
#define MSGS \
    { 1, { { 'x', "DELETE " }, { 'u', "/\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_DELETE }, \
    { 1, { { 'x', "GET " }, { 'u', "*" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_GET }, \
    { 1, { { 'x', "HEAD " }, { 'u', "/\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_HEAD }, \
    { 1, { { 'x', "POST " }, { 'u', "*" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_POST }, \
    { 1, { { 'x', "PUT " }, { 'u', "/\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_PUT }, \
    { 1, { { 'x', "OPTIONS " }, { 'u', "/\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_OPTIONS }, \
    { 1, { { 'x', "TRACE " }, { 'u', "*" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_TRACE }, \
    { 1, { { 'x', "COPY " }, { 'u', "/\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_COPY }, \
    { 1, { { 'x', "LOCK " }, { 'u', "*" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_LOCK }, \
    { 1, { { 'x', "MKCOL " }, { 'u', "/\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_MKCOL }, \
    { 1, { { 'x', "MOVE " }, { 'u', "*" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_MOVE }, \

#endif
#if MSET == 2
#define MSGS \
    { 1, { { 'x', "PROPFIND " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_PROPFIND }, \
    { 1, { { 'x', "PROPPATCH " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_PROPPATCH }, \
    { 1, { { 'x', "UNLOCK " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_UNLOCK }, \
    { 1, { { 'x', "REPORT " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_REPORT }, \
    { 1, { { 'x', "MKACTIVITY " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_MKACTIVITY }, \
    { 1, { { 'x', "CHECKOUT " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_CHECKOUT }, \
    { 1, { { 'x', "MERGE " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_MERGE }, \
    { 1, { { 'x', "M-SEARCH " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_MSEARCH }, \
    { 1, { { 'x', "NOTIFY " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_NOTIFY }, \
    { 1, { { 'x', "SUBSCRIBE " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_SUBSCRIBE }, \
    { 1, { { 'x', "UNSUBSCRIBE " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_UNSUBSCRIBE }, \
    { 1, { { 'x', "PATCH " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 0, HTTP_PATCH }, \
    { 1, { { 'x', "CONNECT " }, { 'u', "h9:80" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 1, HTTP_CONNECT }, \

#endif
#if MSET == 3
#define MSGS \
    { 1, { { 'x', "GET " }, { 'u', "/a\001?b=\001#\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "\005" }, { 'L', "\r\n" }, { 'f', "\002\002" }, { 'x', ": " }, { 'v', "a\003b" }, { 'x', "\r\n" }, { 'f', "Content-Length" }, { 'x', ": " }, { 'v', "3" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'b', "\004\004\004" }, { 'C', "" } }, 2, 0, HTTP_GET }, \
    { 1, { { 'x', "PUT " }, { 'u', "/\001" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "cOnTeNt-LENGTH" }, { 'x', ": " }, { 'v', "012" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'b', "\004\004\004\004\004\004\004\004\004\004\004\004" }, { 'C', "" } }, 1, 0, HTTP_PUT }, \
    { 1, { { 'x', "\r\n" }, { 'x', "POST " }, { 'u', "http://h.9/\001?" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "A" }, { 'x', ": " }, { 'v', "" }, { 'x', "\r\n" }, { 'f', "Content-Length" }, { 'x', ": " }, { 'v', "0" }, { 'x', "\r\n" }, { 'f', "B" }, { 'x', ": " }, { 'v', "\006" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_POST }, \

#endif
#if MSET == 4
#define MSGS \
    { 1, { { 'x', "POST " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "Transfer-Encoding" }, { 'x', ": " }, { 'v', "chunked" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'x', "3\r\n" }, { 'b', "\004\004\004" }, { 'x', "\r\n" }, { 'x', "00a;\003\r\n" }, { 'b', "\004\004\004\004\004\004\004\004\004\004" }, { 'x', "\r\n" }, { 'x', "0\r\n" }, { 'f', "X\002" }, { 'x', ": " }, { 'v', "\006" }, { 'x', "\r\n\r" }, { 'C', "\n" } }, 1, 0, HTTP_POST }, \
    { 1, { { 'x', "POST " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "TRANSFER-encoding" }, { 'x', ": " }, { 'v', "Chunked" }, { 'x', "\r\n" }, { 'f', "Content-Length" }, { 'x', ": " }, { 'v', "7" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'x', "1\r\n" }, { 'b', "\004" }, { 'x', "\r\n" }, { 'x', "B\r\n" }, { 'b', "\004\004\004\004\004\004\004\004\004\004\004" }, { 'x', "\r\n" }, { 'x', "0\r\n\r" }, { 'C', "\n" } }, 2, 0, HTTP_POST }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "Upgrade" }, { 'x', ": " }, { 'v', "w" }, { 'x', "\r\n" }, { 'f', "Connection" }, { 'x', ": " }, { 'v', "Upgrade" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 2, 1, HTTP_GET }, \

#endif
#if MSET == 5
#define MSGS \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 0, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'f', "Connection" }, { 'x', ": " }, { 'v', "Keep-Alive" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "connection" }, { 'x', ": " }, { 'v', "close" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 0, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "Connection" }, { 'x', ": " }, { 'v', "closed" }, { 'x', "\r\n" }, { 'f', "Content-Lengtx" }, { 'x', ": " }, { 'v', "5" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'L', "\r\n" }, { 'f', "Connection" }, { 'x', ": " }, { 'v', "keep-alivex" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 0, 0, HTTP_GET }, \

#endif
#if MSET == 6
#define MSGS \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "X-Connection" }, { 'x', ": " }, { 'v', "close" }, { 'x', "\r\n" }, { 'f', "Content-Length2" }, { 'x', ": " }, { 'v', "5" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "Connectio" }, { 'x', ": " }, { 'v', "close" }, { 'x', "\r\n" }, { 'f', "Transfer-Encodin" }, { 'x', ": " }, { 'v', "chunked" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "Transfer-Encoding" }, { 'x', ": " }, { 'v', "chunke" }, { 'x', "\r\n" }, { 'f', "Connections" }, { 'x', ": " }, { 'v', "close" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_GET }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "Transfer-Encoding" }, { 'x', ": " }, { 'v', "chunkedx" }, { 'x', "\r\n" }, { 'f', "Content-Len" }, { 'x', ": " }, { 'v', "3" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, HTTP_GET }, \

#endif
#if MSET == 7
#define MSGS \
    { 0, { { 'x', "HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'x', " " }, { 's', "2\005\005" }, { 'L', " O\003\r\n" }, { 'f', "Content-Length" }, { 'x', ": " }, { 'v', "2" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'b', "\004\004" }, { 'C', "" } }, 1, 0, 0 }, \
    { 0, { { 'x', "HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "0" }, { 'x', " " }, { 's', "404" }, { 'L', " N\003\r\n" }, { 'f', "\002" }, { 'x', ": " }, { 'v', "\006" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'b', "\004\004\004\004" } }, 0, 0, 0 }, \
    { 0, { { 'x', "HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'x', " " }, { 's', "304" }, { 'L', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'C', "" } }, 1, 0, 0 }, \
    { 0, { { 'x', "HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'x', " " }, { 's', "200" }, { 'L', " OK\r\n" }, { 'f', "Transfer-Encoding" }, { 'x', ": " }, { 'v', "chunked" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'x', "2\r\n" }, { 'b', "\004\004" }, { 'x', "\r\n" }, { 'x', "f\r\n" }, { 'b', "\004\004\004\004\004\004\004\004\004\004\004\004\004\004\004" }, { 'x', "\r\n" }, { 'x', "0\r\n\r" }, { 'C', "\n" } }, 2, 0, 0 }, \

#endif
#if MSET == 8
#define MSGS \
    { 1, { { 'x', "GET " }, { 'u', "/a\001" }, { 'L', "\n" }, { 'f', "A\002" }, { 'x', ":" }, { 'v', "b\003" }, { 'x', "\n" }, { 'f', "C" }, { 'x', ": " }, { 'v', "d" }, { 'x', "\n" }, { 'H', "\n" }, { 'C', "" } }, 0, 0, HTTP_GET }, \
    { 1, { { 'x', "POST " }, { 'u', "/?\001" }, { 'x', "  HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\n" }, { 'f', "Content-Length" }, { 'x', ":\t" }, { 'v', "1" }, { 'x', "\n" }, { 'H', "\n" }, { 'b', "\004" }, { 'C', "" } }, 1, 0, HTTP_POST }, \
    { 1, { { 'x', "GET " }, { 'u', "/" }, { 'x', " HTTP/" }, { 'm', "1" }, { 'x', "." }, { 'n', "1" }, { 'L', "\r\n" }, { 'f', "Content-Length" }, { 'x', ": " }, { 'v', "1" }, { 'x', "\r\n" }, { 'f', "Connection" }, { 'x', ": " }, { 'v', "close" }, { 'x', "\r\n" }, { 'f', "X" }, { 'x', ": " }, { 'v', "a" }, { 'x', "\r\n " }, { 'v', "\006" }, { 'x', "\r\n" }, { 'x', "\r" }, { 'H', "\n" }, { 'b', "\004" }, { 'C', "" } }, 0, 0, HTTP_GET }, \

#endif
