#!/usr/bin/env python3
"""Writes known_findings.json. Hashes are those of the 'fix:' commits in /repo."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []   # {"id","property","scenario","kind","match","seed","what"}
FIXED = """
P01 bedb003 a request line, header or path longer than the token buffer wrote one byte past it
P01 dba610f a folded header whose lines end in CRLF lost its continuation
P01 9f6d605 a header folded over many lines wrote past the token buffer
P04 2ccc64d a NUL byte after a header line made a worker loop forever
P01 f87f986 a request was refused when a CR and its LF arrived in different segments
P01 0b65964 multipart text fields containing new lines were altered
P01 fe3022d empty lines before a request line (as some clients send after a POST) made the next request fail
P03 9d64596 a HEAD response bigger than the buffer made a worker loop forever
P03 a623b96 a short write inside a chunk mark corrupted the response, and the connection was reused after a failed write
P03 03c2212 a response that announced 'Connection: close' left the connection open
P02 04db8f8 a PUT lost data when the disk accepted only part of a write
P02 068a104 an upload that did not finish leaked its file descriptor
P02 fc6316f an upload whose temporary file could not be created wrote to a wrong descriptor
P05 0b81b35 a timeout set in the same second as another one was lost: the connection never timed out
P05 90fc540 a negative timeout closed connections at once instead of disabling the timeout
P06 42a21bb listening again after a stop ended immediately
P06 49d01f4 listen sockets were closed while still in the poller (another descriptor could be removed instead)
P06 63ef7de threads that could not be created were joined (crash), and their list leaked
P06 f7cecd4 a listen point that could not listen closed file descriptor 0
P06 b38341f stopping from a handler or signal deadlocked or raced with the thread being joined
P09 4235f50 a request target or form field ending in an incomplete % sequence was read past its end
P09 5504000 a urlencoded body that did not finish was freed twice
P08 665252d a body announced as 4 GB or more was taken as empty
P09 0e6de84 a crafted multipart body was written past its buffer
P09 0db46a8 a multipart part without a name crashed the server
P01 89f4a13 the first and last cookies were altered, and no cookies leaked memory
P08 6c4baef text fields counted as files for the file limit, and files could exceed it
P10 c389a2b the session cookie header did not end in CRLF
P10 c61e925 a failed redis command crashed the server
P10 cf7ffe8 emptied or dropped sessions stayed in the sqlite and redis stores
P10 a60bcf2 a handler got no session when the store failed
P10 5454dc4 a redis backend that could not connect leaked
P10 37bb887 sessions in memory were used by several threads without a lock
P10 b918ff7 a client that asked again right after a complete response could miss its session data, and a crash could lose them
P10 99ad4ad a session was walked while other requests changed it
P06 984b422 a worker that started after the stop never ended
P13 80d5d85 websocket frame headers may arrive in several segments
P13 c25de37 write websocket frames of any length
P13 c88b6b9 account what is read from the websocket, and finish when it is broken
P13 a37f628 answer websocket pings and closes as the protocol says
P13 3a89eda long onion_websocket_printf
P13 f6775da accept the websocket subprotocol, and count only the created websockets
P13 95dd7c4 a signal does not end the wait for websocket data
P13 48b1ed9 no HTTP error pages into a websocket
P17 f295e7f https requests that come in big TLS records
P13 304c15b several websocket fragments in one TLS record
P17 5338491 a client that does not finish the TLS handshake is dropped at the timeout
P17 bdf6210 a signal does not break the https connection
P14 7cbb0ba do not export directories whose name just starts as the exported one
P14 5b95939 a long Range header wrote past the etag
P14 c81acbf only HEAD gets a file without content
P14 da4c74a ranges that end after the file, of its last bytes, and beyond it
P14 7728465 send files whole whatever sendfile and read do, or close the connection
P14 d296c79 size and etag of the very file that is sent
P14 e24f39e size of the date strings
P14 b1b0eb4 several threads may ask for the first mime type at the same time
P14 2bf5c9f do not list what can not be accessed
P15 2f9c8e5 long webdav paths were truncated
P15 ec37c4f do not share by webdav directories whose name just starts as the shared one
P15 47fd296 webdav move renamed the resource to itself
P15 f3c853d webdav propfind with no body, or one that is not XML
P15 88d2d86 base path of webdav propfind responses
P15 e0b7b73 webdav proppatch of files that do not exist, or with no value
P15 52cf610 webdav size of files over 2 GB
P15 9960022 moving a file to another file system may not lose nor cut it
P19 19156c0 OCS_FORBIDDEN closed the connection with no response
P19 774fe99 an error after some data was written added an error page to the response
P19 e6494e6 handlers after an url or path handler that did not answer got a cut path
P19 9a1b5fd groups of the url regexps after one that did not match, and hidden by the query
P19 db89f27 internal redirects freed the path the query and the new url may point to
P19 0bf52e1 leak of the default error handler when there is other
P18 b195fc8 an Authorization header with just Basic was read past its end
P18 7824e2b length of the unauthorized page and of its realm
P18 56cc04d who logged in with a pam service had access to what others protect
P18 0eefcab an Authorization header that is not base64 crashed the server
P18 fd05d17 base64 decode read past the end of data followed by spaces
P10 104af29 store the session before the response is complete also when handlers are nested
P12 5baf878 a copy of a case insensitive dict was case sensitive
P12 94ea92b removing from a dict with repeated keys lost another entry and left one dangling
P12 d620ae6 onion_dict_remove told it had removed what was not there
P07 a6435b6 a connection that could not be added to the poller stayed open forever
P07 d5a9cc3 files were sent without header when writing the header failed, and the connection then waited forever
P09 a4b67ea a request without protocol version crashed the server at url patterns with groups
P09 748cf90 base64 decode read outside of its table on bytes that are not ASCII
P20 46f1826 onion_get_listen_point read past the end of the list
P20 c58c07d the Diffie-Hellman parameters leaked when they could not be generated
P21 ba8b412 a C++ handler that throws anything not derived from std::exception ended the process
P21 cfa8185 the C++ HttpNotFound exception answered 500
P21 2f3fc4c a C++ Dict read from JSON was never freed
P21 9f1c69f a C++ Dict was used after freed when assigned to itself, and copies of a missing subdict crashed
P21 4bf4e04 moving a C++ Dict lock crashed
P21 26156e6 the C++ Mime::set and its caller both freed the dictionary
P21 85f3304 the C++ Request::clientDescription threw when there is no description
P03 5eac0e3 a signal that interrupted a read or a write of a connection closed it: the response was cut, and with close framing the client could not tell
P01 8a176c4 a ; or a = in the quoted name or filename of a multipart part altered it
P12 c7a876c reading a truncated or malformed JSON text read past its end
P20 cfb42b1 setting a certificate when TLS could not be initialised dereferenced NULL and lost the listen point
P14 e22cf71 mime types of extensions longer than 7 characters, or at a last line without new line, were lost
P22 913d9bc a log message that just did not fit had a NUL byte in place of its last character
P03 d87f180 the Date header was in local time
P03 07be6e7 cookies made at the same time in two threads could get the expiration of each other
P03 84a364e a cookie longer than its buffer was written past its end
P03 17cf0f8 adding a second cookie to a response removed the first one
P03 3cea047 a copy of a text that needed no HTML quoting dereferenced NULL
P14 8f9962f a comment at the end of the mime types file without new line altered the last extension
P14 bc975ea the owner of a file in a directory listing could be the one of a concurrent listing
P23 7c94aa1 the C++ Request::languageCode freed with free what another allocator may have made
P20 d7c92a0 a stopped server could accept the connections of another one
P23 88e9ce6 paths from realpath were freed with the functions of onion_low
P18 6a6b76e a request of an authenticated session was answered 401, or read freed memory, while another request wrote in the same session
P25 0ca6017 asset headers bigger than 4 kB lost declarations at each update
P25 b9edfba generators that updated the same asset header at the same time, or could not write it, lost declarations
P25 008c4c9 opack and otemplate ended with success when they could not read or write everything
P25 3553039 opack named the functions of every directory after its first argument
P25 b7087f5 opack crashed if the directory could not be opened again
P24 5b3fbba carriage returns in templates became new lines
P24 17423e2 packed files returned how many bytes they wrote as their connection status: an empty one was not found, some sizes closed the connection
P24 005e4d2 templates with a % in a tag, a double # at the end of a comment or a { at the end were garbled
P24 383d948 template lines longer than 4 kB were cut in the generated code
P24 a951034 requests at the same time to the handler of a template with blocks corrupted the context they share
""".strip().splitlines()
def main():
    json.dump({"known": KNOWN, "fixed": ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED]}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
if __name__ == "__main__": main()
