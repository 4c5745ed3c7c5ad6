/* the OpenSSL and socket functions the TLS module uses are redirected to the simulation */
#ifndef SIMREN_H
#define SIMREN_H
#include <sys/types.h>
#include <sys/socket.h>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
long sim_BIO_ctrl(BIO *, int, long, void *); void sim_BIO_free_all(BIO *); long sim_BIO_int_ctrl(BIO *, int, long, int);
BIO *sim_BIO_new(const BIO_METHOD *); BIO *sim_BIO_new_accept(const char *); BIO *sim_BIO_new_connect(const char *); BIO *sim_BIO_pop(BIO *);
const BIO_METHOD *sim_BIO_s_accept(void); int sim_BIO_test_flags(const BIO *, int); int sim_BIO_free(BIO *);
void sim_ERR_clear_error(void); unsigned long sim_ERR_get_error(void); unsigned long sim_ERR_peek_error(void); const char *sim_ERR_reason_error_string(unsigned long);
long sim_SSL_CTX_ctrl(SSL_CTX *, int, long, void *); void sim_SSL_CTX_free(SSL_CTX *); SSL_CTX *sim_SSL_CTX_new(const SSL_METHOD *);
int sim_SSL_CTX_set_cipher_list(SSL_CTX *, const char *); uint64_t sim_SSL_CTX_set_options(SSL_CTX *, uint64_t);
void sim_SSL_CTX_set_psk_server_callback(SSL_CTX *, SSL_psk_server_cb_func); void sim_SSL_set_psk_client_callback(SSL *, SSL_psk_client_cb_func);
int sim_SSL_accept(SSL *); int sim_SSL_connect(SSL *); void sim_SSL_free(SSL *); int sim_SSL_get_error(const SSL *, int); void *sim_SSL_get_ex_data(const SSL *, int);
SSL *sim_SSL_new(SSL_CTX *); int sim_SSL_read(SSL *, void *, int); void sim_SSL_set_bio(SSL *, BIO *, BIO *); int sim_SSL_set_ex_data(SSL *, int, void *);
int sim_SSL_shutdown(SSL *); int sim_SSL_write(SSL *, const void *, int); int sim_SSL_pending(const SSL *);
const SSL_METHOD *sim_TLS_client_method(void); const SSL_METHOD *sim_TLS_server_method(void);
int sim_getpeername(int, struct sockaddr *, socklen_t *);
#ifndef SIM_SELF
#define BIO_ctrl sim_BIO_ctrl
#define BIO_free_all sim_BIO_free_all
#define BIO_free sim_BIO_free
#define BIO_int_ctrl sim_BIO_int_ctrl
#define BIO_new sim_BIO_new
#define BIO_new_accept sim_BIO_new_accept
#define BIO_new_connect sim_BIO_new_connect
#define BIO_pop sim_BIO_pop
#define BIO_s_accept sim_BIO_s_accept
#define BIO_test_flags sim_BIO_test_flags
#define ERR_clear_error sim_ERR_clear_error
#define ERR_get_error sim_ERR_get_error
#define ERR_peek_error sim_ERR_peek_error
#define ERR_reason_error_string sim_ERR_reason_error_string
#define SSL_CTX_ctrl sim_SSL_CTX_ctrl
#define SSL_CTX_free sim_SSL_CTX_free
#define SSL_CTX_new sim_SSL_CTX_new
#define SSL_CTX_set_cipher_list sim_SSL_CTX_set_cipher_list
#define SSL_CTX_set_options sim_SSL_CTX_set_options
#define SSL_CTX_set_psk_server_callback sim_SSL_CTX_set_psk_server_callback
#define SSL_set_psk_client_callback sim_SSL_set_psk_client_callback
#define SSL_accept sim_SSL_accept
#define SSL_connect sim_SSL_connect
#define SSL_free sim_SSL_free
#define SSL_get_error sim_SSL_get_error
#define SSL_get_ex_data sim_SSL_get_ex_data
#define SSL_new sim_SSL_new
#define SSL_read sim_SSL_read
#define SSL_set_bio sim_SSL_set_bio
#define SSL_set_ex_data sim_SSL_set_ex_data
#define SSL_shutdown sim_SSL_shutdown
#define SSL_write sim_SSL_write
#define SSL_pending sim_SSL_pending
#define TLS_client_method sim_TLS_client_method
#define TLS_server_method sim_TLS_server_method
#define getpeername sim_getpeername
#endif
#endif
