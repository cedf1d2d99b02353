(use-modules (ice-9 rdelim) (ice-9 format) (ice-9 match) (oop goops) (rnrs bytevectors) (srfi srfi-1))
(use-modules (scribbu))
(fluid-set! %default-port-encoding "UTF-8")
(setvbuf (current-output-port) 'block)
(define out (dup (current-output-port)))
(set-port-encoding! out "UTF-8")

(define (hex4 n) (format #f "\\u~4,'0x" n))

(define (jstr s port)
  (display #\" port)
  (string-for-each
   (lambda (c)
     (let ((n (char->integer c)))
       (cond ((or (char=? c #\") (char=? c #\\)) (display #\\ port) (display c port))
             ((and (>= n 32) (< n 127)) (display c port))
             ((< n #x10000) (display (hex4 n) port))
             (else (let ((m (- n #x10000)))
                     (display (hex4 (+ #xd800 (ash m -10))) port)
                     (display (hex4 (+ #xdc00 (logand m #x3ff))) port))))))
   s)
  (display #\" port))

(define (jlist xs port)
  (display "[" port)
  (let loop ((xs xs) (first #t))
    (unless (null? xs)
      (unless first (display "," port))
      (json (car xs) port)
      (loop (cdr xs) #f)))
  (display "]" port))

(define (json x port)
  (cond ((eq? x #t) (display "true" port))
        ((eq? x #f) (display "false" port))
        ((null? x) (display "[]" port))
        ((list? x) (jlist x port))
        ((pair? x) (display "{\"car\":" port) (json (car x) port) (display ",\"cdr\":" port) (json (cdr x) port) (display "}" port))
        ((string? x) (jstr x port))
        ((symbol? x) (display "{\"sym\":" port) (jstr (symbol->string x) port) (display "}" port))
        ((and (number? x) (exact-integer? x)) (display x port))
        ((bytevector? x)
         (display "{\"bv\":\"" port)
         (for-each (lambda (b) (format port "~2,'0x" b)) (bytevector->u8-list x))
         (display "\"}" port))
        ((unspecified? x) (display "null" port))
        ((eof-object? x) (display "{\"eof\":1}" port))
        ((instance? x)
         (display "{\"cls\":" port)
         (jstr (symbol->string (class-name (class-of x))) port)
         (for-each
          (lambda (s)
            (let ((n (slot-definition-name s)))
              (display "," port)
              (jstr (symbol->string n) port)
              (display ":" port)
              (json (slot-ref x n) port)))
          (class-slots (class-of x)))
         (display "}" port))
        (else (display "{\"other\":" port) (jstr (format #f "~s" x) port) (display "}" port))))

;; tags as write-tagset takes them
(define (pairs ts) (map (lambda (x) (list (car x) (cadr x))) ts))
(define (frame i j) (list-ref (slot-ref (car (list-ref T i)) 'frames) j))
(define (tag i) (car (list-ref T i)))
(define T '())
(define V '())

(define (answer x)
  (catch #t
    (lambda ()
      (let ((v (eval x (interaction-environment))))
        (call-with-output-string (lambda (port) (json v port)))))
    (lambda (key . args)
      (call-with-output-string
       (lambda (port)
         (display "{\"ex\":" port)
         (jstr (symbol->string key) port)
         (display ",\"what\":" port)
         (jstr (format #f "~s" args) port)
         (display "}" port))))))

(define (serve)
  (let ((x (read (current-input-port))))
    (unless (eof-object? x)
      (display (answer x) out)
      (newline out)
      (force-output out)
      (serve))))
(serve)
