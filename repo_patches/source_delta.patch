From 1f3a6149addc9ac930f68b6e20449506e3fb85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 01/22] fix: read nothing when a negative or absurd amount is
 asked of a ReadBuffer

---
 pkg/pg/read_buffer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..cb3d7ac 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -32,7 +32,7 @@ func (b *ReadBuffer) Len() int {
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
-	if b.Len() < n {
+	if n < 0 || b.Len() < n {
 		return nil, io.EOF
 	}
 
@@ -104,6 +104,11 @@ func (b *ReadBuffer) ReadString() (string, error) {
 // ReadInt32Array decodes an array of k 32-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
+	// NB: compared this way round because k * 4 could overflow
+	if k < 0 || k > b.Len()/4 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 4)
 
 	if err != nil {
@@ -122,6 +127,11 @@ func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
 // ReadInt16Array decodes an array of k 16-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt16Array(k int) ([]int16, error) {
+	// NB: compared this way round because k * 2 could overflow
+	if k < 0 || k > b.Len()/2 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 2)
 
 	if err != nil {
-- 
2.43.0


From 4925d2285560468a032d3373dbb5ec3fb37776bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 02/22] fix: reject messages with negative or impossible
 element counts

---
 pkg/pg/data_row_message.go                   | 4 ++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/row_description_message.go            | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..7161a98 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,10 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	if valuesCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..1652c60 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	// Every option takes at least one byte
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..49221c4 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,10 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	if fieldsCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From a37e5c32f9e47d22ae1621e61b8df6c7de1befb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 03/22] fix: reject frames shorter than their own length field

---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..7e014ce 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..c7ac836 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From bf4b3f11be5f2ad7d807a5eaf5a419f87fd0c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 04/22] fix: relay messages that cannot be represented exactly
 as they are

---
 pkg/pg/conn.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..07a8a6e 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -1,6 +1,7 @@
 package pg
 
 import (
+	"bytes"
 	"net"
 )
 
@@ -33,12 +34,25 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return nil, err
 	}
 
+	message, err := parseMessage(frame)
+
+	// The same type byte means different messages depending on who sends it, and there are messages (or parts of them)
+	// that we do not know about. Convey everything that we cannot represent exactly as is.
+	if err != nil || !bytes.Equal(message.Frame().Bytes(), frame.Bytes()) {
+		return ParseGenericMessage(frame)
+	}
+
+	return message, nil
+}
+
+// parseMessage parses the given frame according to its type.
+func parseMessage(frame Frame) (Message, error) {
 	switch frame.MessageType() {
 	case AuthenticationRequestMessageType:
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From c5dd8db217c0a0824b747c25538064a912681962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 05/22] fix: honour the last value of a repeated start-up
 parameter, like PostgreSQL

---
 pkg/pg/startup_message.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..6d4a746 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -92,12 +92,15 @@ func (m *StartupMessage) Frame() Frame {
 }
 
 // GetParameter returns parameter value by its name. If parameter is not set it returns an empty string.
+// If it is set more than once the last value wins, as it does in PostgreSQL.
 func (m *StartupMessage) GetParameter(name string) string {
+	value := ""
+
 	for _, param := range m.Parameters {
 		if param.Name == name {
-			return param.Value
+			value = param.Value
 		}
 	}
 
-	return ""
+	return value
 }
-- 
2.43.0


From 3f94e029812de702a57de86ada60915df1893e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 06/22] fix: reject start-up messages with data after the
 terminator

---
 pkg/pg/startup_message.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 6d4a746..5450d58 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -47,6 +47,11 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 			}
 
 			if key == "" {
+				// The terminator must be the last byte of the message
+				if messageData.Len() > 0 {
+					return nil, ErrMalformedMessage
+				}
+
 				break
 			}
 
-- 
2.43.0


From abab1be677b45c9ddb2272853f3a8967d5184c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 07/22] fix: understand database URIs the way libpq does

---
 pkg/pg/dsn.go | 59 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 62cc167..c8226ee 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -28,9 +28,11 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 
 	// Username and password
 	if url.User != nil {
-		settings["user"] = url.User.Username()
+		if username := url.User.Username(); username != "" {
+			settings["user"] = username
+		}
 
-		if password, present := url.User.Password(); present {
+		if password, _ := url.User.Password(); password != "" {
 			settings["password"] = password
 		}
 	}
@@ -46,18 +48,60 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 	}
 
 	// Database name
-	if database := strings.TrimLeft(url.Path, "/"); database != "" {
+	if database := strings.TrimPrefix(url.Path, "/"); database != "" {
 		settings["database"] = database
-	} else {
+	}
+
+	// Query parameters override everything above
+	err = parseURIQuery(url.RawQuery, settings)
+
+	if err != nil {
+		return nil, err
+	}
+
+	if settings["database"] == "" {
 		// Default is the same as database user
 		settings["database"] = settings["user"]
 	}
 
-	for k, v := range url.Query() {
-		settings[k] = v[0]
+	return settings, nil
+}
+
+// parseURIQuery adds parameters from the query part of a connection URI to the given settings.
+// NB: unlike in HTTP, "+" and ";" have no special meaning in there.
+func parseURIQuery(query string, settings ConnectionParams) error {
+	for _, pair := range strings.Split(query, "&") {
+		if pair == "" {
+			continue
+		}
+
+		kv := strings.SplitN(pair, "=", 2)
+
+		if len(kv) != 2 {
+			return fmt.Errorf("missing value of the PostgreSQL database URI parameter %s", pair)
+		}
+
+		key, err := url.PathUnescape(kv[0])
+
+		if err != nil {
+			return err
+		}
+
+		value, err := url.PathUnescape(kv[1])
+
+		if err != nil {
+			return err
+		}
+
+		// That's how libpq calls it
+		if key == "dbname" {
+			key = "database"
+		}
+
+		settings[key] = value
 	}
 
-	return settings, nil
+	return nil
 }
 
 // defaultConnectionSettings returns PostgreSQL implicit default connection settings.
@@ -70,7 +114,6 @@ func defaultConnectionSettings() ConnectionParams {
 	// Use local OS username as both default DB user and DB name
 	if user, err := user.Current(); err == nil {
 		settings["user"] = user.Username
-		settings["database"] = user.Username
 	}
 
 	return settings
-- 
2.43.0


From b8a38a98526767b6f34c8f807a0a79fa7efaf0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 08/22] fix: never hold up configuration readers, unsubscribers
 and closers behind a slow subscriber

Get could deadlock with the monitoring goroutine, Unsubscribe and Close could not get through while
an update was being handed to a subscriber that no longer reads, and Subscribe could register a
subscription after Close.
---
 pkg/server/config_distributor.go | 180 +++++++++++++++++++++++--------
 1 file changed, 136 insertions(+), 44 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..5613a43 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -39,11 +39,29 @@ type ConfigDistributor struct {
 	// Channel with Config updates
 	source <-chan *Config
 
+	// Fired after the first Config is received
+	ready *Event
+
 	// Last received Config
 	lastConfig *Config
 
 	// Subscriptions to Config updates
-	subscriptions map[chan<- *Config][]ConfigChangedCheckFn
+	subscriptions map[chan<- *Config]*configSubscription
+}
+
+// configSubscription is a subscription of a single channel to Config updates.
+type configSubscription struct {
+	// Held while a Config is being sent to the channel
+	mu sync.Mutex
+
+	// Subscribed channel
+	ch chan<- *Config
+
+	// Filters updates
+	checks []ConfigChangedCheckFn
+
+	// Fired when the subscription is cancelled
+	cancelled *Event
 }
 
 var (
@@ -59,6 +77,7 @@ func NewConfigDistributor(configChan <-chan *Config) *ConfigDistributor {
 		source:  configChan,
 		started: NewEvent(),
 		closed:  NewEvent(),
+		ready:   NewEvent(),
 	}
 }
 
@@ -83,47 +102,75 @@ func (p *ConfigDistributor) Get() (*Config, error) {
 		return lastConfigSnapshot, nil
 	}
 
-	// Wait for the next config update from the source
-	return p.waitForNextConfig()
+	// Wait for the first config from the source
+	return p.waitForFirstConfig()
 }
 
 // Subscribe subscribes given channel to configuration updates.
 // If checks are specified, new config will be sent to the channel only if one of them returns true.
 func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChangedCheckFn) error {
-	// Check that distributor is still active
-	if p.closed.HasFired() {
-		return ErrConfigDistributorClosed
+	// Replace the existing subscription of this channel if there is one
+	p.Unsubscribe(ch)
+
+	subscription := &configSubscription{ch: ch, checks: checks, cancelled: NewEvent()}
+
+	// Updates have to wait until we send the current config
+	subscription.mu.Lock()
+	defer subscription.mu.Unlock()
+
+	currentConfig, err := p.register(subscription)
+
+	if err != nil {
+		return err
+	}
+
+	// Send current config immediately
+	if currentConfig != nil && p.shouldSendUpdatedConfig(checks, nil, currentConfig) {
+		subscription.sendLocked(currentConfig)
 	}
 
+	return nil
+}
+
+// register adds the given subscription and returns Config that was active at that moment.
+func (p *ConfigDistributor) register(subscription *configSubscription) (*Config, error) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
-	// Send current config immediately even before we registered a new subscription
-	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
-		ch <- p.lastConfig
+	// Check that distributor is still active
+	if p.closed.HasFired() {
+		return nil, ErrConfigDistributorClosed
+	}
+
+	// Somebody else has subscribed the same channel in the meantime
+	if existing, ok := p.subscriptions[subscription.ch]; ok {
+		existing.cancelled.Fire()
 	}
 
 	// Register subscription
 	if p.subscriptions == nil {
-		p.subscriptions = make(map[chan<- *Config][]ConfigChangedCheckFn)
+		p.subscriptions = make(map[chan<- *Config]*configSubscription)
 	}
 
-	p.subscriptions[ch] = checks
+	p.subscriptions[subscription.ch] = subscription
 
 	// Start monitoring goroutine
 	if p.started.Fire() {
 		go p.monitorConfig()
 	}
 
-	return nil
+	return p.lastConfig, nil
 }
 
 // Unsubscribe cancels subscription for the given channel.
 func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
 	p.mu.Lock()
-	defer p.mu.Unlock()
+	subscription := p.unsubscribeLocked(ch)
+	p.mu.Unlock()
 
-	p.unsubscribeLocked(ch)
+	if subscription != nil {
+		subscription.wait()
+	}
 }
 
 // Close stops the monitoring goroutine and cancels all subscriptions.
@@ -132,41 +179,54 @@ func (p *ConfigDistributor) Close() {
 		return
 	}
 
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	var subscriptions []*configSubscription
 
+	p.mu.Lock()
 	for ch := range p.subscriptions {
-		p.unsubscribeLocked(ch)
+		subscriptions = append(subscriptions, p.unsubscribeLocked(ch))
 	}
-}
+	p.mu.Unlock()
 
-// unsubscribeLocked unsubscribes the channel without locking the mutex.
-func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
-	delete(p.subscriptions, ch)
+	for _, subscription := range subscriptions {
+		subscription.wait()
+	}
 }
 
-// waitForNextConfig waits for the next received Config update from the source and then returns it.
-func (p *ConfigDistributor) waitForNextConfig() (*Config, error) {
-	nextConfigChan := make(chan *Config)
-	defer close(nextConfigChan)
+// unsubscribeLocked unsubscribes the channel without locking the mutex. It returns the cancelled subscription (if any).
+func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) *configSubscription {
+	subscription, ok := p.subscriptions[ch]
 
-	// Subscribe to ourselves for the duration of this method
-	err := p.Subscribe(nextConfigChan)
-
-	if err != nil {
-		return nil, err
+	if !ok {
+		return nil
 	}
 
-	defer p.Unsubscribe(nextConfigChan)
+	subscription.cancelled.Fire()
+	delete(p.subscriptions, ch)
+
+	return subscription
+}
+
+// waitForFirstConfig waits for the first Config from the source and then returns the current one.
+func (p *ConfigDistributor) waitForFirstConfig() (*Config, error) {
+	// Start monitoring goroutine
+	if p.started.Fire() {
+		go p.monitorConfig()
+	}
 
 	// Wait for the config or Cancel signal
 	select {
-	case config := <-nextConfigChan:
-		return config, nil
-
+	case <-p.ready.Done():
 	case <-p.closed.Done():
+	}
+
+	if p.closed.HasFired() {
 		return nil, ErrConfigDistributorClosed
 	}
+
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+
+	return p.lastConfig, nil
 }
 
 // monitorConfig waits for Config updates from the source and notifies subscribers.
@@ -186,16 +246,22 @@ func (p *ConfigDistributor) monitorConfig() {
 				return
 			}
 
-			// Update lastConfig and notify subscribers
+			// Update lastConfig and notify subscribers.
+			// NB: we don't hold the mutex while sending: subscribers are free to take their time.
+			var subscriptions []*configSubscription
+
 			p.mu.Lock()
-			{
-				oldConfig := p.lastConfig
-				p.lastConfig = newConfig
+			oldConfig := p.lastConfig
+			p.lastConfig = newConfig
 
-				p.notifySubscribersLocked(oldConfig, newConfig)
+			for _, subscription := range p.subscriptions {
+				subscriptions = append(subscriptions, subscription)
 			}
 			p.mu.Unlock()
 
+			p.ready.Fire()
+			p.notifySubscribers(subscriptions, oldConfig, newConfig)
+
 		// Stop the loop if distributor is closed
 		case <-p.closed.Done():
 			return
@@ -203,15 +269,41 @@ func (p *ConfigDistributor) monitorConfig() {
 	}
 }
 
-// notifySubscribersLocked notifies subscribers about config changes.
-func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
-	for ch, checks := range p.subscriptions {
-		if p.shouldSendUpdatedConfig(checks, oldConfig, newConfig) {
-			ch <- newConfig
+// notifySubscribers notifies subscribers about config changes.
+func (p *ConfigDistributor) notifySubscribers(subscriptions []*configSubscription, oldConfig, newConfig *Config) {
+	for _, subscription := range subscriptions {
+		if p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
+			subscription.send(newConfig)
 		}
 	}
 }
 
+// send sends given config to the subscribed channel unless the subscription is cancelled.
+func (s *configSubscription) send(config *Config) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.sendLocked(config)
+}
+
+// sendLocked is the same as send but doesn't lock the mutex.
+func (s *configSubscription) sendLocked(config *Config) {
+	if s.cancelled.HasFired() {
+		return
+	}
+
+	select {
+	case s.ch <- config:
+	case <-s.cancelled.Done():
+	}
+}
+
+// wait waits until there is nothing being sent to the subscribed channel.
+func (s *configSubscription) wait() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+}
+
 // shouldSendUpdatedConfig runs the subscription checks to determine whether or not
 // subscribed channels should receive update.
 func (p *ConfigDistributor) shouldSendUpdatedConfig(checks []ConfigChangedCheckFn, oldConfig, newConfig *Config) bool {
-- 
2.43.0


From ba77796f5e3bd8af6621f9ffae55b91ab8d86af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 09/22] fix: do not recurse on every SSL request of a client

---
 pkg/server/session.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..b9a39d4 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -159,7 +159,7 @@ func (s *Session) negotiateSessionParams() error {
 	}
 
 	// Check if startup message is a SSL request
-	if startupMessage.ProtocolVersion == pg.SSLRequestMagic {
+	for startupMessage.ProtocolVersion == pg.SSLRequestMagic {
 		log.Info("session: client requested SSL; denying")
 
 		err = s.clientConn.SendByte('N')
@@ -168,8 +168,11 @@ func (s *Session) negotiateSessionParams() error {
 			return err
 		}
 
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
+		startupMessage, err = s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	// Check the protocol version just in case
-- 
2.43.0


From 01978496ced4796facc5bc1daa7f01b59aec5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 10/22] fix: tell clients that ask for another database, and
 honour PostgreSQL's default one

---
 pkg/server/session.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index b9a39d4..7dce403 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -187,7 +187,17 @@ func (s *Session) negotiateSessionParams() error {
 		return err
 	}
 
-	if dbName := startupMessage.GetParameter("database"); dbName != allowedDB {
+	dbName := startupMessage.GetParameter("database")
+
+	// PostgreSQL connects to the database named like the user by default
+	if dbName == "" {
+		dbName = startupMessage.GetParameter("user")
+	}
+
+	if dbName != allowedDB {
+		// The session is over anyway: there is nobody to tell if we fail to send this
+		_ = s.clientConn.SendMessage(newDatabaseMismatchMessage(dbName))
+
 		return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
 	}
 
@@ -195,6 +205,18 @@ func (s *Session) negotiateSessionParams() error {
 	return s.establishDBConnection(startupMessage)
 }
 
+// newDatabaseMismatchMessage returns an error for a client that requested a database that we are not proxying.
+func newDatabaseMismatchMessage(dbName string) pg.Message {
+	return &pg.ErrorResponseMessage{
+		Fields: []*pg.MessageField{
+			{Type: pg.MessageFieldSeverityLocalized, Value: "FATAL"},
+			{Type: pg.MessageFieldSeverity, Value: "FATAL"},
+			{Type: pg.MessageFieldCode, Value: "3D000"},
+			{Type: pg.MessageFieldMessage, Value: fmt.Sprintf("database %q is not available through this proxy", dbName)},
+		},
+	}
+}
+
 // establishDBConnection connects to the database using connection parameters from the config.
 func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	// Get database connection params from the config
-- 
2.43.0


From f547202d8d61578414a914905076b77f512a6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 11/22] fix: do not let a stalled direction of a session block
 the other one

---
 pkg/server/session.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 7dce403..f7cf31f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -96,7 +96,8 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
 	// Wait for the first error (or successful exit)
 	err = g.Wait()
@@ -318,30 +319,28 @@ func (s *Session) startDBOutPump() error {
 	}
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
-	// FIXME: temporary just proxy everything from the client to the database and vice versa
-	for {
-		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
-				return nil
-			}
-
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+// startClientProcessing dispatches messages from the client to the database.
+func (s *Session) startClientProcessing() error {
+	// FIXME: temporary just proxy everything
+	for clientMsg := range s.clientIn {
+		log.Infof("-> %s", clientMsg.Frame().Bytes())
 
-			s.dbOut <- clientMsg
+		s.dbOut <- clientMsg
+	}
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+	return nil
+}
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+// startDBProcessing dispatches messages from the database to the client.
+func (s *Session) startDBProcessing() error {
+	// FIXME: temporary just proxy everything
+	for dbMsg := range s.dbIn {
+		log.Infof("<- %s", dbMsg.Frame().Bytes())
 
-			s.clientOut <- dbMsg
-		}
+		s.clientOut <- dbMsg
 	}
+
+	return nil
 }
 
 // getDBConnnectionParam returns connection parameter with given name from the config.
-- 
2.43.0


From f407fcdb5bcc40da011d5e3b766d058e10d8f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 12/22] fix: end sessions when either side hangs up or the
 session is closed

Close used to close channels that other goroutines were sending to, which crashed the process, and
nothing ended a session when only one of its sides went away. Now every channel is closed by the
goroutine that sends to it, so that the end of the input propagates to the other side after
everything received so far is delivered. Connecting to the database and waiting for a config
no longer outlive the session either.
---
 pkg/server/session.go | 89 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 78 insertions(+), 11 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index f7cf31f..8f5b91f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -17,6 +17,9 @@ type Session struct {
 	// Guards dbConnectionParams
 	mu sync.Mutex
 
+	// Guards dbConn while the session is being established
+	dbConnMu sync.Mutex
+
 	// Global configuration
 	cfg ConfigStore
 
@@ -130,19 +133,16 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: client connection is closed; err = %v", err)
 	}
 
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
 	if s.dbConn != nil {
 		err = s.dbConn.Close()
 
 		log.Debugf("session: db connection is closed; err = %v", err)
 	}
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
-
-	log.Debug("session: channels closed")
+	// NB: message channels are closed by goroutines that send to them
 
 	return
 }
@@ -234,14 +234,18 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	}
 
 	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	dialer := net.Dialer{Cancel: s.closed.Done()}
+	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
 	}
 
-	// Convert to pg.NewConn
-	s.dbConn = pg.NewConn(conn)
+	err = s.setDBConn(conn)
+
+	if err != nil {
+		return err
+	}
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
@@ -253,8 +257,27 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	return nil
 }
 
+// setDBConn sets the database connection unless the session has been closed in the meantime.
+func (s *Session) setDBConn(conn net.Conn) error {
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
+	if s.closed.HasFired() {
+		conn.Close()
+		return ErrSessionClosed
+	}
+
+	// Convert to pg.NewConn
+	s.dbConn = pg.NewConn(conn)
+
+	return nil
+}
+
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
+	// This will stop the processing goroutine and then the out pump
+	defer close(s.clientIn)
+
 	for {
 		message, err := s.clientConn.RecvMessage()
 
@@ -268,6 +291,9 @@ func (s *Session) startClientInPump() error {
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
 func (s *Session) startClientOutPump() error {
+	// Either the database hung up and everything it sent is delivered or the session is closed
+	defer s.Close()
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.clientOut
@@ -281,6 +307,10 @@ func (s *Session) startClientOutPump() error {
 		err := s.clientConn.SendMessage(message)
 
 		if err != nil {
+			// Do not hold up the in pump: it has to notice when the other side hangs up too
+			for range s.clientOut {
+			}
+
 			return err
 		}
 	}
@@ -288,6 +318,9 @@ func (s *Session) startClientOutPump() error {
 
 // startClientOutPump pumps messages from the database into the dbIn channel.
 func (s *Session) startDBInPump() error {
+	// This will stop the processing goroutine and then the out pump
+	defer close(s.dbIn)
+
 	for {
 		message, err := s.dbConn.RecvMessage()
 
@@ -301,6 +334,9 @@ func (s *Session) startDBInPump() error {
 
 // startDBOutPump pumps messages from the dbOut channel to the database.
 func (s *Session) startDBOutPump() error {
+	// Either the client hung up and everything it sent is delivered or the session is closed
+	defer s.Close()
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.dbOut
@@ -314,6 +350,10 @@ func (s *Session) startDBOutPump() error {
 		err := s.dbConn.SendMessage(message)
 
 		if err != nil {
+			// Do not hold up the in pump: it has to notice when the other side hangs up too
+			for range s.dbOut {
+			}
+
 			return err
 		}
 	}
@@ -321,6 +361,9 @@ func (s *Session) startDBOutPump() error {
 
 // startClientProcessing dispatches messages from the client to the database.
 func (s *Session) startClientProcessing() error {
+	// This will stop the out pump
+	defer close(s.dbOut)
+
 	// FIXME: temporary just proxy everything
 	for clientMsg := range s.clientIn {
 		log.Infof("-> %s", clientMsg.Frame().Bytes())
@@ -333,6 +376,9 @@ func (s *Session) startClientProcessing() error {
 
 // startDBProcessing dispatches messages from the database to the client.
 func (s *Session) startDBProcessing() error {
+	// This will stop the out pump
+	defer close(s.clientOut)
+
 	// FIXME: temporary just proxy everything
 	for dbMsg := range s.dbIn {
 		log.Infof("<- %s", dbMsg.Frame().Bytes())
@@ -351,7 +397,7 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 	// First call to getDBConnnectionParam — parse params from the config
 	if s.dbConnectionParams == nil {
 		// Get() will block until we have a config
-		config, err := s.cfg.Get()
+		config, err := s.waitForConfig()
 
 		if err != nil {
 			return "", err
@@ -367,3 +413,24 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	return s.dbConnectionParams[name], nil
 }
+
+// waitForConfig waits until either there is a config or the session is closed.
+func (s *Session) waitForConfig() (*Config, error) {
+	var config *Config
+
+	done := make(chan error, 1)
+
+	go func() {
+		var err error
+		config, err = s.cfg.Get()
+		done <- err
+	}()
+
+	select {
+	case err := <-done:
+		return config, err
+
+	case <-s.closed.Done():
+		return nil, ErrSessionClosed
+	}
+}
-- 
2.43.0


From 8e76a333f54f8ab789469727f63a02acc9267d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 13/22] fix: do not crash on config updates after the server is
 closed

---
 pkg/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..2059f55 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -84,7 +84,7 @@ func (srv *Server) Start() error {
 
 	// Watch for config changes
 	serverConfigurationUpdates := make(chan *Config, 1)
-	defer close(serverConfigurationUpdates)
+	defer srv.config.Unsubscribe(serverConfigurationUpdates)
 
 	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
 		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
-- 
2.43.0


From 764fa3662d201cd84ce58619112da4745473a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 14/22] fix: apply changes of the listen address in the order
 they arrive

---
 pkg/server/server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 2059f55..73d9b44 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -111,8 +111,16 @@ func (srv *Server) Start() error {
 				continue
 			}
 
+			// Change listeners right here: concurrent updates must not overtake each other
+			err = srv.changeListener(ln)
+
+			if err != nil {
+				log.Errorf("server: error has been occurred while changing listeners: %v", err)
+				continue
+			}
+
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			srv.do(func() { _ = srv.acceptConns(ln) })
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -135,6 +143,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.acceptConns(ln)
+}
+
+// acceptConns calls ServeConn for every client connection accepted by the given listener.
+func (srv *Server) acceptConns(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
-- 
2.43.0


From 01447cbd729f2443418d1813af36146af039065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 15/22] fix: leave nothing behind when the server is closed
 while something is being started

Listeners, client connections and goroutines that were set up concurrently with Close could escape it,
and the ones refused because of it were never closed.
---
 pkg/server/server.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 73d9b44..ad6b3bb 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -179,7 +179,9 @@ func (srv *Server) acceptConns(ln net.Listener) error {
 		}
 
 		// Serve client in a new goroutine
-		srv.do(func() { _ = srv.ServeConn(conn) })
+		if !srv.do(func() { _ = srv.ServeConn(conn) }) {
+			conn.Close()
+		}
 	}
 }
 
@@ -190,6 +192,7 @@ func (srv *Server) acceptConns(ln net.Listener) error {
 func (srv *Server) ServeConn(conn net.Conn) error {
 	// Return error if server is closed
 	if srv.shutdown.HasFired() {
+		conn.Close()
 		return ErrServerClosed
 	}
 
@@ -205,6 +208,7 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		session.Close()
 		return err
 	}
 
@@ -277,14 +281,15 @@ func (srv *Server) Close() error {
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
 func (srv *Server) changeListener(ln net.Listener) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to change a listener if Server is closed
 	if srv.shutdown.HasFired() {
+		ln.Close()
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -301,26 +306,35 @@ func (srv *Server) changeListener(ln net.Listener) error {
 }
 
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
-// before the server is shutdown.
-func (srv *Server) do(f func()) {
+// before the server is shutdown. It returns false and does nothing if the server is closed already.
+func (srv *Server) do(f func()) bool {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	if srv.shutdown.HasFired() {
+		return false
+	}
+
 	srv.wg.Add(1)
 
 	go func() {
 		defer srv.wg.Done()
 		f()
 	}()
+
+	return true
 }
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to register a session if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From eee9122fb4e456ffa59b4d8ec621add7d87ec206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 16/22] fix: load gevulot.toml from the current directory by
 default, as documented

---
 pkg/cli/cli.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 83f3478..0ae83b6 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -3,8 +3,6 @@ package cli
 import (
 	"fmt"
 	"io"
-	"os"
-	"path/filepath"
 
 	log "github.com/sirupsen/logrus"
 	"gopkg.in/alecthomas/kingpin.v2"
@@ -67,7 +65,7 @@ func (c *cli) parseArgs(args []string) (*cliArgs, error) {
 	app.Flag("config", "Set the configuration file path").
 		Short('c').
 		PlaceHolder("PATH").
-		Default(filepath.Join(filepath.Dir(os.Args[0]), "gevulot.toml")).
+		Default("gevulot.toml").
 		StringVar(&parsedArgs.configPath)
 
 	// Add --verbose flag to enable debug output
-- 
2.43.0


From ca9301d604857854511db2e5d5153fa608d52990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 17/22] fix: reject configs without the mandatory listen
 address

---
 pkg/cli/read_server_config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index e26a414..3d88420 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
 
 	"github.com/BurntSushi/toml"
@@ -25,5 +26,10 @@ func readServerConfig(path string) (*server.Config, error) {
 		return nil, err
 	}
 
+	// NB: the file could be empty because somebody is in the middle of rewriting it
+	if config.Listen == "" {
+		return nil, errors.New("the listen address is not set")
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 56e610f1a714be9ac7a9db0d91aba7a2bc99839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 18/22] fix: notice config changes made while the program is
 starting

---
 pkg/cli/cli.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 0ae83b6..6cb6a5a 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -97,21 +97,30 @@ func (c *cli) configureLogger(verbose bool) {
 }
 
 func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error) {
-	config, err := readServerConfig(configPath)
+	updatesChan := make(chan *server.Config)
+
+	// Start watching before we read the config for the first time, otherwise we could miss changes made in between
+	err := watchServerConfig(configPath, updatesChan)
 
 	if err != nil {
 		return nil, err
 	}
 
-	configChan := make(chan *server.Config, 1)
-	configChan <- config
-
-	err = watchServerConfig(configPath, configChan)
+	config, err := readServerConfig(configPath)
 
 	if err != nil {
 		return nil, err
 	}
 
+	configChan := make(chan *server.Config, 1)
+	configChan <- config
+
+	go func() {
+		for updatedConfig := range updatesChan {
+			configChan <- updatedConfig
+		}
+	}()
+
 	return configChan, nil
 }
 
-- 
2.43.0


From fe3bc44d3a12862de003458685d473ba37b3472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 19/22] fix: keep watching the config file after a watcher
 error

---
 pkg/cli/file_watcher.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..964a437 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -95,12 +95,17 @@ func (w *fileWatcher) Watch() error {
 
 				// fsnotify watcher error
 				case err, ok := <-watcher.Errors:
-					// 'Errors' channel is open
-					if ok {
-						watcherError = err
+					// 'Errors' channel is closed
+					if !ok {
+						return
 					}
 
-					return
+					// Keep watching, but we don't know what we have missed
+					log.Errorf("file watcher error: %v", err)
+
+					if w.OnWrite != nil {
+						w.OnWrite()
+					}
 
 				// StopWatch has been called
 				case <-w.watchDone:
@@ -112,17 +117,16 @@ func (w *fileWatcher) Watch() error {
 		// Start the watcher
 		watcherError = watcher.Add(w.Path)
 
+		// There is nothing to watch
+		if watcherError != nil {
+			close(w.watchDone)
+		}
+
 		// Exit from Watch
 		initWG.Done()
 
 		// Event loop
 		eventsWG.Wait()
-
-		// We are not in the context of calling goroutine anymore so we cannot just return error
-		// and have to print the error by ourselves.
-		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", err)
-		}
 	}()
 
 	// Wait for watcher to initialize
-- 
2.43.0


From 19fae0629e38e03fd3c2da9fb6ed92ca2cc63eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 20/22] fix: report errors that interrupt the list of tables

---
 pkg/pgmeta/inspector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..f07cc22 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,11 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// Check that we have received all rows
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From e7ea2bc28f2ddeef8581ab29e468ac5eb031d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 21/22] fix: list partitioned and foreign tables and schemas
 that merely start with pg

---
 pkg/pgmeta/inspector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index f07cc22..7fc5203 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -60,8 +60,8 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
         FROM pg_class c
         JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace
        WHERE n.nspname NOT IN ('information_schema')
-         AND n.nspname NOT LIKE 'pg_%'
-		 AND c.relkind IN ('r', 'm', 'v');`,
+         AND n.nspname NOT LIKE 'pg\_%'
+		 AND c.relkind IN ('r', 'p', 'f', 'm', 'v');`,
 	)
 
 	if err != nil {
-- 
2.43.0


From c5271906098b8c2c0f2a1f79783d76d9205e0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:25 +0000
Subject: [PATCH 22/22] fix: listen again on an address that could not be bound
 before

---
 pkg/server/server.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index ad6b3bb..c2ba9dc 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -86,14 +86,15 @@ func (srv *Server) Start() error {
 	serverConfigurationUpdates := make(chan *Config, 1)
 	defer srv.config.Unsubscribe(serverConfigurationUpdates)
 
-	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
-		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
-	})
+	err := srv.config.Subscribe(serverConfigurationUpdates)
 
 	if err != nil {
 		return err
 	}
 
+	// Config with the address that we are currently listening on
+	var activeConfig *Config
+
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
@@ -101,6 +102,12 @@ func (srv *Server) Start() error {
 		select {
 		// Wait for the new config
 		case config := <-serverConfigurationUpdates:
+			// NB: compare with the address in use rather than with the previous config,
+			// which might have named an address that we couldn't listen on
+			if activeConfig != nil && activeConfig.Listen == config.Listen {
+				continue
+			}
+
 			log.Infof("server: serving on %s", config.Listen)
 
 			// Initialize a new listener
@@ -119,6 +126,8 @@ func (srv *Server) Start() error {
 				continue
 			}
 
+			activeConfig = config
+
 			// Serve the new listener
 			srv.do(func() { _ = srv.acceptConns(ln) })
 
-- 
2.43.0

